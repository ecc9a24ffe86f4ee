from .common import *
META = dict(
 title='Building blocks: counters, tagged values, handles, visitors, pipes, tokens',
 statement='A statistics counter starts at zero, counts every event exactly once and shares nothing with other counters or copies. A tagged value and a typed flag hold the value they were made from through copies and moves, and compare equal exactly when their values do. Transaction handles compare and order as their numbers, equal handles hash equally. An overloaded visitor runs the case of the alternative that is held. Flattening nested lists keeps every element in order. A result pipe runs its step once on success and never on failure, passes errors on unchanged and does not nest results. A token stream hands out each token once, in order, compares expected tokens in full and fails after the last one, without calling the reader.',
 text='all values, texts of 19 and 20 bytes, lists of several shapes up to eight elements, streams of up to four tokens, success and failure in every combination',
 over=['inputs', 'histories'],
 why='everything else is written in terms of these; a slip shows only for some values (the last element, an equal prefix, a second use)',
 files=['src/stat/stat_counter.hpp', 'src/util/util_tagged_type.hpp', 'src/util/util_typed_bool.hpp', 'src/util/util_variant_overloaded.hpp', 'src/util/util_flat.hpp', 'src/util/util_result_sugar.hpp', 'src/util/util_token_stream.hpp', 'src/util/util_token_stream.cpp', 'src/stun/stun_client_udp_handle.hpp'],
 mechanism=[('statistics counter', 'src/stat/stat_counter.hpp'), ('tagged types', 'src/util/util_tagged_type.hpp'), ('token stream', 'src/util/util_token_stream.cpp'), ('result pipe', 'src/util/util_result_sugar.hpp')],
 technique=TECH, note=NOTE)
EXPLANATION = 'Abstract interpretation of each building block for arbitrary values, in both container variants.'
def run(c):
    c.all(['p30.cpp'], 'counters, tagged values, token streams')
    c.variant = 'ref'
    c.all(['p30.cpp'], 'counters, tagged values, token streams')
