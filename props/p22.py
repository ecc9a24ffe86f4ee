from .common import *
META = dict(
 title='ICE candidates: preferences, priorities, types and foundations',
 statement='Type, local and component preferences accept exactly 0-126, 0-65535 and 0-255 and keep their value; recommended type preferences are 126 host, 110 peer reflexive, 100 server reflexive, 0 relayed, and the recommended component preference is 256 minus the id. The priority of a preference is 2^24 type + 2^8 local + component, so different preferences never share a priority. Candidate types and the transport type are read by their RFC 8839 names in any letter case, anything else is unknown, and names read back. A foundation is 1 to 32 ice characters, kept exactly; foundations are equal exactly when their texts are.',
 text='every number, every name of every length and byte content, foundations of every length',
 why='tests try a handful of values; limits, overlap of the preference fields, one wrong character class need particular inputs',
 files=['src/ice/candidate/ice_candidate_preference.cpp', 'src/ice/candidate/ice_candidate_type.cpp', 'src/ice/candidate/ice_candidate_transport_type.cpp', 'src/ice/candidate/ice_candidate_foundation.cpp', 'src/ice/candidate/ice_candidate_component_id.cpp', 'src/ice/ice_abnf.hpp', 'src/abnf/abnf.hpp'],
 mechanism=[('preferences and priority formula', 'src/ice/candidate/ice_candidate_preference.cpp'), ('type names', 'src/ice/candidate/ice_candidate_type.cpp'), ('ice characters', 'src/ice/ice_abnf.hpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of the ICE value types on symbolic numbers and symbolic texts; priorities are compared bit for bit with the RFC 8445 formula.'
F = ['p22.cpp']
def run(c):
    c.all(F, 'ice::candidate value types')
