"""Writes the 'fixed' list of known_findings.json from the fix: commits of /repo."""
import json
import subprocess
import sys

MAP = """7ad76ec C03|9c1162b C03|9b8a4b7 C03|c07bf05 C03|06557c8 C03|7082668 C03|6036826 C03|e24b00c C03|0b23428 C03|f4bca7b C04|bac267b C04|1873fa0 C04|e65912c C05
805d4b1 C05|364bf83 C05|6e7cb55 C02|98c2f79 C05|1c3ad4c C06|db56d83 C07|3886ece C08|fbcc2de C14|4361214 C15|3624ef2 C15|f37d060 C16|88e43ab C16|e9dbf47 C16|19b8239 C17
8c1f2f8 C20|a6d7e49 C20|5b32cf4 C22|0e2a0c7 C22|656006d C22|9e4479d C25|b69b02b C25|1e0a4d8 C25|e9203be C25|38b84b9 C25|6dc3f74 C26|b569e4e C26|3d05970 C10|f13154c C10
be1adae C13|ab4d6b6 C13|77883c7 C13|7c29f8f C13|86bc5e6 C27|5bce6d9 C27|cbe3ced C23|8a1b492 C23|18cd0f5 C23|2ffdad6 C24|4ea57d3 C24|c8c5e47 C24|7a9107d C24|20f683e C24
5463aa0 C24|307713b C24|e5ab2af C30|c1fa5be C30|d352e04 C29|cf3563e C29|f6b4d37 C29|2ce74a3 C18|d373c8a C19|b008349 C19|5c4dec7 C09|5160540 C09|7cb1a3f C09|ec4af24 C09
8d9e07f C09|518a257 C09|54b4740 C09|93ac434 C09|fa809c6 C09|b06f6ad C09|3402939 C27|c05a663 C32|c5c7b15 C32|d513cb5 C32|00e124c C33|4969c20 C33|412f6af C33|41be952 C33|0580cf3 C33|b0e597a C33|b3b5fc1 C33|b98948f C33|654e1ce C33|0818c4f C33|44ff638 C33|a6254c7 C33|c529fb7 C33|fff0ea4 C34|13eb869 C34|64fe15e C34|454712b C35|0b759fa C35|b78e5f4 C35|34a518e C36|7fa53b6 C35|6deb73c C10|aaf46ef C13|8a1a4ef C04"""


def main():
    prop = dict(e.split() for line in MAP.splitlines() for e in line.split('|'))
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '09acd63..HEAD'], text=True)
    out = []
    for line in log.splitlines():
        sha, msg = line.split(' ', 1)
        if not msg.startswith('fix: '):
            continue
        if sha[:7] not in prop:
            sys.exit('no property for ' + line)
        out.append('fixed: property=%s %s %s' % (prop[sha[:7]], sha, msg[5:]))
    kf = json.load(open('known_findings.json'))
    kf['fixed'] = out
    with open('known_findings.json', 'w') as f:
        json.dump(kf, f, indent=1)
        f.write('\n')
    print(len(out))


main()
