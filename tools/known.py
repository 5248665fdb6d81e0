"""Maintains known_findings.json (never run by a check): open findings and the
record of repaired defects, from the table below and /repo's fix commits."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = [
 ('C14-non-adjacent', 'C14', 'split_n_of_m keeps secrets by cyclic adjacency: any selection of at least m partial key sets that contains no m cyclically adjacent ones (e.g. sets 0, 1, 3 of a 3-of-5 split) recovers nothing instead of the key'),
 ('C14-qr-indexes', 'C14', 'the QR form of a partial key set with more than one missing index (m < N-1) records only one index, so it reads back with other indexes'),
 ('C25-truncate', 'C25', 'randrange_from_seed__truncate_bytes and randrange_from_seed__truncate_bits raise TypeError on Python 3 for every seed and order (str and bytes mixed; the intended result for orders that do not fill whole bytes is undefined, so this is not repaired)'),
]
# commit subject -> properties, what failed
FIXED = [
 ('decompress HD wallet points', 'C07 C08 C12', 'HDWallet.point_decompress ignored the parity of y for half of the keys and accepted x beyond the field'),
 ('make HDWallet.from_extended_key', 'C08', 'from_extended_key raised for every input'),
 ('refuse every malformed public key', 'C02 C09 C12', 'malformed public keys raised assertion/type/index errors'),
 ('refuse a WIF private key', 'C10', 'a bad WIF checksum raised TypeError'),
 ('make ecc.verify() answer', 'C02', 'malformed signatures raised instead of answering False'),
 ('check public key coordinates', 'C18 C22', 'coordinates between the group order and the field were refused'),
 ('reject an ECDSA signature that leads', 'C18', 'verification raised for u1*G+u2*Q = infinity'),
 ('reduce r modulo', 'C18', 'signing kept r >= n'),
 ('keep coordinates of a multiplied', 'C20', 'negative_self gave y = -y outside the field'),
 ('double a point of order two', 'C20', 'doubling a point of order two raised'),
 ('count bytes as an integer in RFC', 'C19', 'float division broke RFC 6979 on Python 3'),
 ('compare s with half', 'C24', 'canonicalisation compared s with a float'),
 ('encode the length of long DER integers', 'C23', 'DER integers over 127 bytes got a one-byte length'),
 ('decode object identifiers below 2', 'C23', 'object identifiers 2.40 and up decoded with a wrong first arc'),
 ('refuse private keys outside the group order in Address', 'C09', 'Address accepted out-of-range private keys'),
 ('save public-only wallets', 'C03', 'public-only wallets came back with another form'),
 ('check the padding when loading', 'C05', 'loading with a wrong passphrase could yield another key'),
 ('make piecewise.get_address', 'C13', 'get_address raised / ignored the channel number'),
 ('split private keys without xrange', 'C13', 'splitting raised on Python 3'),
 ('combine partial key sets on Python 3', 'C14', 'combining raised TypeError on Python 3 and on corrupt parts'),
 ('encode and decode the QR form', 'C14', 'QR encode/decode raised on Python 3'),
 ('refuse an uncompressed public key off', 'C09', 'Address accepted a full public key off the curve'),
 ('refuse private keys outside the group order in shared_secret', 'C15', 'out-of-range private keys gave a secret'),
 ('expand 256-bit AES keys', 'C16', '256-bit keys raised TypeError'),
 ('refuse CFB segments longer', 'C16', 'CFB segments over 16 bytes lost data'),
 ('feed bytes through the streaming', 'C17', 'the feeders raised on Python 3'),
 ('strip PKCS7 padding', 'C17', 'padding stripping raised / accepted invalid padding'),
 ('keep the old wallet file', 'C06', 'saving truncated the old wallet before the new one was written'),
 ('refuse DER elements', 'C22 C23 C24', 'DER elements cut short were accepted with other values'),
 ('read 8-byte variable integers', 'C26 C30', 'counts from 2^32 up could not be read, 0xfd..0xffff borders were written in a longer form'),
 ('refuse variable integers that cannot', 'C29', 'variable integers out of range were accepted and failed when encoded'),
 ('refuse byte and text fields', 'C28', 'byte and text fields cut short were accepted'),
 ('apply the limits of lists', 'C28', 'lists over or under their limits were accepted from the wire'),
 ('accept all and only valid IPv6', 'C30', 'valid IPv6 addresses were refused and invalid ones accepted'),
 ('compare out points', 'C26 C29', 'comparing out points raised NameError'),
 ('do not register message types', 'C27', 'unsupported message types were accepted from the wire'),
 ('print every message', 'C31', 'printing messages raised on Python 3'),
 ('refuse a message cut short', 'C27', 'a header cut short raised struct.error'),
 ('take a command with leading zero', 'C27', 'a command with leading zero bytes was accepted as the known one'),
 ('refuse text that cannot', 'C29', 'non-latin-1 text was accepted and failed when encoded'),
 ('refuse invalid values of optional', 'C29', 'an invalid optional value was replaced by the default'),
 ('compute targets on Python 3', 'C34', 'targets raised on Python 3 / for small exponents'),
 ('convert hashes to and from', 'C34', 'hexadecimal helpers raised on Python 3'),
 ('follow lists in fetched JSON', 'C44', 'lists in JSON paths gave nothing, a failing source stopped its thread with an error'),
 ('reduce the argument of order_mod', 'C21', 'order_mod never returned or was wrong for x >= m'),
 ('refuse more positional', 'C29', 'more positional values than fields were silently dropped'),
 ('find nothing for a malformed URL', 'C44', 'a malformed URL raised instead of finding nothing'),
 ('keep a banned IP', 'C39', 'the ban was kept by address and port, so a banned peer reconnected from another port'),
 ('answer an address request', 'C36', 'an address request raised on Python 3 and was not answered'),
 ('keep no more than', 'C38', 'the address book grew by whole messages past its maximum'),
 ('record when a peer was heard', 'C40 C36', 'the time a peer was last heard from was recorded as an interval'),
 ('compare connections', 'C35 C36', 'comparing two connections recursed endlessly'),
 ('do not get stuck on the own', 'C41', 'seeking peers stopped at the own address when it was in the book'),
 ('close the socket when a connection', 'C41', 'a connection that could not announce itself left its socket open and was never used'),
 ('do not ask to write', 'C37 C40', 'a closed connection with unsent data asked to write again (bad file descriptor)'),
 ('drop a peer that never', 'C40', 'a peer that never sent anything was never dropped'),
 ('count the external addresses', 'C42', 'the reports of peers that left still counted'),
 ('report failure without', 'C43', 'a missing port mapping library raised'),
 ('never map an invalid port', 'C43', 'ports above 65535 were tried'),
 ('remove the port mapping', 'C43', 'removal deleted the mapping of the internal port, maybe of another host'),
 ('a connection that can not be accepted', 'C46', 'an error of accept(), e.g. out of descriptors, closed the listening socket for good'),
 ('an address in use is reported', 'C46', 'AddrInUseError was raised on macOS only, and the socket stayed open'),
 ('a node that stops closes', 'C46', 'serve_forever left the connections of all peers open'),
 ('raise at every access to a malformed alert', 'C33', 'only the first access to a field of a malformed alert payload raised, later ones gave values of the part that was read'),
]
def main():
    log = [l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()]
    fs = [dict(id=i, property=p, status='open', what=w) for i, p, w in OPEN]
    used = set()
    for sub, props, what in FIXED:
        hit = [h for h, s in log if s.startswith('fix: ' + sub)]
        assert len(hit) == 1, (sub, hit)
        used.add(hit[0])
        for p in props.split():
            fs.append(dict(id='%s-%s' % (p, hit[0]), property=p, status='fixed',
                           what='fixed: property=%s %s %s' % (p, hit[0], what)))
    for h, s in log:
        if s.startswith('fix:') and h not in used:
            print('unrecorded:', h, s)
    json.dump({'findings': fs}, open(os.path.join(root, 'known_findings.json'), 'w'), indent=1)
if __name__ == '__main__':
    main()
