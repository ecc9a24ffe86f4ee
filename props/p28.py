from .common import *
META = dict(
 title='Results own what they hold: nothing made from an input dangles',
 statement='What the library makes from bytes, text, keys or messages stays usable after these are destroyed: a parsed STUN message with all its text, digests, addresses, lists, unknown attributes and transaction id, and any copy of it, can be read and built again; so can a domain name, an ICE candidate with its extensions, a password, a digest; a reply of the server with the request it holds after the datagram, the user data given to the server and the server itself are gone; the outcome of a client transaction after the response and the client are gone. A request is kept by the client independently of what it was made of, and the bytes given to the application to send stay valid and unchanged while the transaction lives, even when other transactions are created, sent, answered or end. No other value is read after its storage was released.',
 text='messages with every kind of attribute, text and unknown values of several lengths within and beyond the small string size, arbitrary contents; up to three transactions',
 over=['inputs', 'histories'],
 why='a dangling view usually still sees the old bytes in a test; whether it is read again depends on what the caller does between',
 files=['src/stun/stun_message.cpp', 'src/stun/stun_attribute.hpp', 'src/stun/stun_attribute_set.hpp', 'src/stun/stun_transaction_id.hpp', 'src/stun/stun_client_udp.cpp', 'src/stun/stun_client_udp_effects.hpp', 'src/stun/stun_server_stateless.cpp', 'src/stun/stun_password.cpp', 'src/crypto/crypto_hmac.hpp', 'src/net/net_fqdn.cpp', 'src/ice/candidate/ice_candidate_sdp.cpp', 'src/util/util_token_stream.hpp'],
 mechanism=[('attributes own their data', 'src/stun/stun_attribute.cpp'), ('transactions own the bytes to send', 'src/stun/stun_client_udp.cpp'), ('candidates own their text', 'src/ice/candidate/ice_candidate_sdp.cpp')],
 technique=TECH, note=NOTE + '; released storage is tracked per object: a read of it on any path is a violation')
EXPLANATION = 'Inputs are placed in heap or scope bound storage that is released before the result is used; the abstract memory marks released objects and rejects every later access; values are compared with the input bytes they were made from.'
def run(c):
    c.bounds = True; c.variant = 'ref'
    c.all(['p28.cpp'], 'parsed messages, client, server, passwords, candidates')
