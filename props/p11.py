from .common import *
META = dict(
 title='The STUN fingerprint checksum is CRC-32 for all data and fragmentation',
 statement='The checksum of any bytes equals the remainder of the reflected 0xEDB88320 polynomial division with all-ones preset and final complement, it does not depend on how the bytes are split into views, and no bytes give zero.',
 text='all byte contents, lengths 0-32 and split layouts listed in the harness',
 why='tests compare one fingerprint; one wrong table entry of 256 survives that',
 files=['src/stun/details/stun_fingerprint.cpp'],
 mechanism=[('table-driven CRC', 'src/stun/details/stun_fingerprint.cpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation in the GF(2) linear domain: the table-driven and the bitwise checksum are normalised to xor sums of input bits and compared bit by bit.'
F = ['p11.cpp']
def run(c):
    c.sizes = {"freewebrtc::stun::AttributeType": 2}
    c.all(F, 'stun::crc32')
