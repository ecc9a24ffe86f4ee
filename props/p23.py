from .common import *
META = dict(
 title='Character classes, case-insensitive names and domain names',
 statement='ALPHA, DIGIT and ice characters are exactly the RFC sets; names compare equal exactly when they have the same length and match letter by letter ignoring ASCII case. A domain name is parsed as the longest prefix of labels (letters, digits, underscore, inner hyphens) joined by dots, the rest of the text is handed back exactly; a text is accepted as a domain name only when nothing is left over, and keeps its text.',
 text='all 256 bytes; all pairs of names of up to three bytes and of different lengths; all texts of up to five bytes as domain names',
 why='tests try a few names; hyphens at label ends, empty labels and odd characters combine in too many ways to sample',
 files=['src/abnf/abnf.hpp', 'src/ice/ice_abnf.hpp', 'src/net/net_fqdn.cpp', 'src/net/net_fqdn.hpp'],
 mechanism=[('character classes', 'src/abnf/abnf.hpp'), ('label and subdomain parsers', 'src/net/net_fqdn.cpp')],
 technique=TECH, note=NOTE + '; domain names up to five bytes')
EXPLANATION = 'Abstract interpretation of the character predicates on one symbolic byte and of Fqdn::parse / from_string on texts of symbolic bytes, partitioned by character class; compared with the grammar written as a one-pass automaton.'
F = ['p23.cpp']
def run(c):
    c.all(F, 'abnf, ice::abnf and net::Fqdn')
