from .common import *
META = dict(
 title='Integers in text: ports, priorities and component ids',
 statement='A port is read from one to five decimal digits and is exactly their value; anything longer, above 65535 or with another character is refused. A candidate priority is read from one to ten digits and is exactly their value; zero, values above 32 bits, other lengths and other characters are refused. A component id is read from one to three digits; up to 256 it is their value, no other text is ever taken for a different id, and ids given as numbers are 1 to 256. Building any of them from a number keeps the number.',
 text='every text of every length, byte for byte, and every 16/32-bit number',
 why='tests try a few numbers; a wrong limit, a lost digit or an overflow shows only at particular values',
 files=['src/net/net_port.cpp', 'src/ice/candidate/ice_candidate_priority.cpp', 'src/ice/candidate/ice_candidate_component_id.cpp', 'src/abnf/abnf.hpp'],
 mechanism=[('port', 'src/net/net_port.cpp'), ('candidate priority', 'src/ice/candidate/ice_candidate_priority.cpp'), ('component id', 'src/ice/candidate/ice_candidate_component_id.cpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of the three text parsers over texts of symbolic bytes (each length on its own, all other lengths together); the digit sum is compared as a linear form over the integers.'
F = ['p21.cpp']
def run(c):
    c.all(F, 'net::Port, ice::candidate::Priority and ComponentId')
