from .common import *
META = dict(
 title='IP addresses and endpoints: binary form, text form, equality, hashing',
 statement='An IPv4 address is exactly four bytes and an IPv6 address exactly sixteen, and keeps them. Two addresses (and two network paths) are equal exactly when family and bytes are, and equal ones hash alike. A text is an IPv4 address when the standard conversion reads it as one, otherwise an IPv6 address when the conversion reads it so, otherwise an error, and a text with a NUL character is no address; an address is written in its standard text form. An endpoint keeps its protocol, address and port.',
 text='every address of both families, every pair of addresses and of paths, every view size, every text of 0, 1, 2, 7, 15-17, 39, 40, 45-47, 64 and 100 bytes relative to the platform conversion, every port',
 over=['inputs'],
 why='tests look at a handful of addresses; a byte left out of equality or hashing, or text cut at a NUL, shows only for particular addresses',
 files=['src/net/ip/ip_address.cpp', 'src/net/ip/ip_address.hpp', 'src/net/ip/ip_address_v4.hpp', 'src/net/ip/ip_address_v6.hpp', 'src/net/ip/ip_address_hash.hpp', 'src/net/ip/ip_address_hash.cpp', 'src/net/ip/details/ip_address_tpl.hpp', 'src/net/net_path.hpp', 'src/net/net_path_hash.hpp', 'src/net/net_endpoint.hpp'],
 mechanism=[('address family and text', 'src/net/ip/ip_address.cpp'), ('bytes, size, conversion', 'src/net/ip/details/ip_address_tpl.hpp'), ('path hash', 'src/net/net_path_hash.hpp')],
 technique=TECH, note=NOTE + '; inet_pton and inet_ntop are uninterpreted functions of text and bytes')
EXPLANATION = 'Abstract interpretation of address construction, conversion, equality and hashing on symbolic bytes; the platform text conversion is an uninterpreted function, so the result must hold whatever it answers.'
F = ['p32.cpp']
def run(c):
    c.all(F, 'ip addresses, paths, endpoints')
