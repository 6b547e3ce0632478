"""Rewrites the "fixed" list of known_findings.json from /repo's fix: commits (run by hand)."""
import json, subprocess
M = {}
for pid, hs in {
    'C02': '9bbe86d', 'C03': 'ed423f3', 'C04': 'ef4e822 784cba9 e30cd84',
    'C23': '7cc8bed a9be484 c33a9da c98a5dc', 'C06': '720bcf8 160cb77 05a8cc4 938090c d05d2be',
    'C08': '048e31c 8bee9c3 177c6c0 3f7825f c375918', 'C07': '49e3bb5 b5e0fad 63dacd0',
    'C09': '739a197 51b6f4f 0ccca97 a19849d d15931b', 'C10': 'a0b6d48 e347de6',
    'C11': '96fcdbf 0977798 0d5a4c4', 'C14': '13545ca eed01f4 25e5470',
    'C15': 'eda18fd b48d02c 94d9adf', 'C16': '7943065 29c2b15',
    'C18': '5f7aa8a 4715176 e63096b 1f68d82', 'C19': 'ae1df5f bd1cb44 5559081',
    'C20': 'f079b5c 809aa4b 19b5f63 468bc8c d8903d2 0091b1c',
    'C21': '2a9e919 b6515ae 8d165bd 966b5ce 15a0777', 'C22': '17c035d 58deb0c 9990a3b',
    'C24': '3269cc2 4488893'}.items():
    for h in hs.split():
        M[h] = pid
out = []
for line in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'],
                           capture_output=True, text=True).stdout.splitlines():
    h, s = line.split(' ', 1)
    if s.startswith('fix: ') and (h in M):
        out.append('fixed: property=%s %s %s' % (M[h], h, s[5:]))
    elif s.startswith('fix: '):
        print('unmapped', line)
d = json.load(open('/verif/known_findings.json'))
d['fixed'] = out
json.dump(d, open('/verif/known_findings.json', 'w'), indent=1)
print(len(out))
