"""What the shipped device files and the mandatory list say (oracle for C13 and C26), read without the library."""
import json, os, re
from common import REPO

# Z-Wave device class numbers of the names used in the mandatory list, and command class numbers of the
# names used there (in the order in which they are recognised).
NUMBERS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'devclasses.json')))

CLASS_NAMES = [('in', 'Application Status', 0x22), ('in', 'Association Group Information', 0x59), ('in', 'Association', 0x85),
               ('is', 'Basic', 0x20), ('in', 'Binary Switch', 0x25), ('in', 'Central Scene', 0x5b), ('in', 'CRC16', 0x56),
               ('in', 'Device Reset Locally', 0x5a), ('is', 'Manufacturer Specific', 0x72), ('in', 'Meter', 0x32),
               ('in', 'Multichannel Association', 0x8e), ('in', 'Multi Channel', 0x60), ('in', 'Multilevel Sensor', 0x31),
               ('in', 'Multilevel Switch', 0x26), ('is', 'Notification', 0x71), ('is', 'Power Level', 0x73), ('in', 'Security', 0x98),
               ('in', 'Version', 0x86), ('in', 'Z-Wave Plus Info', 0x5e)]


def class_id(name):
    for how, s, n in CLASS_NAMES:
        if (how == 'in' and s in name) or (how == 'is' and s == name):
            return n
    return 0


def mandatory(repo=REPO):
    """{(generic, specific): [command classes]}"""
    named = {}
    defs, classes = [], []
    for line in open(os.path.join(repo, 'database/mandatory.txt'), encoding='utf-8'):
        t = line.strip()
        if not t:
            for d in defs:
                named[d] = classes
            defs, classes = [], []
            continue
        if t.startswith('#') and 'SPECIFIC_TYPE_NOT_USED' not in t:
            p = t.split('-')
            defs.append((p[-2].strip(), p[-1].strip()))
        if t.startswith('-'):
            c = class_id(t.lstrip('-').strip())
            if c:
                classes.append(c)
    out = {}
    for g, s in sorted(named):
        out.setdefault((NUMBERS[g], NUMBERS[s]), []).append(named[g, s])
    return out


def products(repo=REPO):
    """{key: product}, the key being 'manufacturer_type_id' in lower case."""
    d = os.path.join(repo, 'database/json')
    seen, out = set(), {}
    for f in sorted(os.listdir(d)):
        if not f.endswith('.json'):
            continue
        dev = json.load(open(os.path.join(d, f), encoding='utf-8'))
        eps = dev.get('endpoints') or []
        ccs = (eps[0].get('commandclasses') or []) if eps else []
        cc = [[int(c['id'], 16) if c.get('id') else 0, int(bool(c.get('nif'))), int(bool(c.get('secure'))), int(bool(c.get('nonsecure'))),
               c.get('version') or ''] for c in ccs]
        for ref in dev.get('device_ref') or []:
            p = ref.split(':')
            ty, pid = (p[0], p[1]) if len(p) == 2 else (p[0], '') if len(p) == 1 else ('', '')
            iden = (dev['manufacturer_id'], ty, pid)
            if iden in seen:
                continue
            seen.add(iden)
            key = '_'.join(iden).lower()
            out.setdefault(key, {'brand': dev.get('manufacturer_name') or '', 'product': dev.get('label') or '', 'descr': dev.get('decription') or '',
                                 'iden': list(iden), 'cc': cc, 'file': f})
    return out
