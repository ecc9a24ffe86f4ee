from .common import *
META = dict(
 title='Untrusted bytes: every access stays within what was given',
 statement='Whatever bytes and however many of them arrive as a STUN message, a STUN attribute, an RTP packet, a binary or text IP address, a transaction id, a hash value, a key of HMAC or data to be hashed or summed, handling them reads no byte before or after those given, touches no object of the library outside its own storage, copies only between storage of sufficient size, and comes to a result or an error. The same is true of a server that processes an arbitrary datagram, and of a client that is handed an arbitrary response to its request, including every byte that they pass to the hash function and the sizes they declare for it.',
 text='every datagram of every length up to 1 GiB for parsing and the server; for the client: every 20 byte datagram and every datagram with one attribute of 4 or 16 byte IP address shape, any type; every length of the key, the summed, hashed and textual data',
 over=['inputs'],
 why='tests feed well formed examples; a read one byte past the end needs a length at one boundary and is silent without a sanitizer',
 files=['src/stun/stun_message.cpp', 'src/stun/stun_attribute.cpp', 'src/stun/stun_attribute_set.cpp', 'src/stun/stun_server_stateless.cpp', 'src/stun/stun_client_udp.cpp', 'src/stun/details/stun_fingerprint.cpp', 'src/rtp/rtp_packet.cpp', 'src/net/ip/ip_address.cpp', 'src/net/ip/ip_address_hash.cpp', 'src/util/util_hash_murmur.cpp', 'src/crypto/crypto_hmac.hpp', 'src/crypto/crypto_hash.hpp'],
 mechanism=[('checked intervals of views', 'src/stun/stun_message.cpp'), ('word at a time reading', 'src/util/util_hash_murmur.cpp'), ('interval arithmetic', 'src/rtp/rtp_packet.cpp'), ('key padding', 'src/crypto/crypto_hmac.hpp')],
 technique=TECH, note=NOTE + '; inet_pton/inet_ntop keep their documented bounds; attributes of an unbounded message are summarised by one representative')
EXPLANATION = 'Each input is an object of symbolic extent; every load, store and copy on every path is required to lie within the extent of the object it addresses, with loop counters bounded by the exits of their loops.'
def run(c):
    c.bounds = True
    c.all(['p27.cpp'], 'the parsers, crc32, murmur, ip::Address, Hash::from_view', aborts=['any_message'])
    c.variant = 'ref'
    c.all(['p27r.cpp'], 'hmac::IPadKey, server::Stateless::process, ClientUDP::response', aborts=['server'])
