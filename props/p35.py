from .common import *
META = dict(
 title='ICE candidate lines (SDP): parts, order, relevance, errors',
 statement='A candidate line is the prefix "candidate:" and parts separated by single spaces: foundation, component, transport, priority, address, port, the word typ, type, then related address (raddr), related port (rport) and name/value extensions in any order. Each field of the parsed candidate is what its own part says, extensions keep their order, a related address or port is present exactly when given. A line whose address, transport or type is not known is reported as one to ignore; any other malformed part, a missing port, type, related value or extension value makes the line an error, that of the first malformed part; other lines are refused by their prefix. A line that is cut short never gives a candidate.',
 text='every text for each part (up to three bytes, five for the type) against fixed other parts; all parts at once with one free byte each; related parts in both orders and doubled; extension names and values of 0-10 bytes; every cut; every ten byte prefix; every short line; every text of up to six bytes and any separator for the splitting itself',
 over=['inputs'],
 why='tests parse four well formed example lines; swapped parts, lost extensions, wrong precedence of errors and lines cut at a particular place need particular lines',
 files=['src/ice/candidate/ice_candidate_sdp.cpp', 'src/ice/candidate/ice_candidate_sdp.hpp', 'src/ice/candidate/ice_candidate.hpp', 'src/ice/candidate/ice_candidate_address.cpp', 'src/ice/candidate/ice_candidate_address.hpp', 'src/util/util_token_stream.cpp', 'src/util/util_token_stream.hpp', 'src/util/util_string_view.hpp'],
 mechanism=[('line grammar', 'src/ice/candidate/ice_candidate_sdp.cpp'), ('tokens', 'src/util/util_token_stream.hpp'), ('splitting', 'src/util/util_string_view.hpp')],
 technique=TECH, note=NOTE + '; inet_pton is an uninterpreted function of the text; text lengths as listed')
EXPLANATION = 'Abstract interpretation of parse_sdp_attr, split_all and TokenStream on texts with symbolic parts; the expected outcome is composed from the part parsers (P21-P23, P32) in the harness.'
F = ['p35.cpp']
def run(c):
    c.all(F, 'parse_sdp_attr, split_all, TokenStream')
