"""Which machinery decides which property."""
import codec, data, lists, rec, scen

CHECKS = {}
for _p in ('C03', 'C04'):
    CHECKS[_p] = (lambda p: lambda ctx: codec.check(ctx, p))(_p)
for _p in scen.MIX:
    CHECKS[_p] = (lambda p: lambda ctx: scen.check(ctx, p))(_p)


def _c05(ctx):
    codec.check(ctx, 'C05')
    return scen.check(ctx, 'C05')


CHECKS['C05'] = _c05
CHECKS['C26'] = data.check
CHECKS['C24'] = lambda ctx: rec.check24(ctx, 'C24')
CHECKS['C21'] = lambda ctx: lists.check(ctx, 'C21')
CHECKS['C25'] = lambda ctx: rec.check25(ctx, 'C25')
TECH = {'C21': 'TLA+ specification of concurrent histories (TLC judges recorded operations), race detector as recorder of unordered map accesses',
        'C19': 'TLA+ trace monitor (TLC) over scenarios with intercepted file operations, crash points and restarts replayed into the real code',
        'C26': 'TLA+ specification of the lookups, TLC judges recorded sequences of lookups over the complete key space',
        'C25': 'TLA+ specification of the converter as oracle: TLC recomputes the lines of random recordings'}
LEVEL = {'C26': 'exploration', 'C25': 'exploration'}
_M = {'MCLink': ('C06', 'C07', 'C08', 'C09', 'C10'), 'MCPort': ('C11',), 'MCFraming': ('C01', 'C02'), 'MCNode': ('C15', 'C16', 'C17'),
      'MCPersist': ('C19', 'C20'), 'MCIdent': ('C12', 'C13', 'C14'), 'MCList': ('C21',), 'MCRecorder': ('C24',), 'MCConvert': ('C25',)}
MODEL = {_p: _m for _m, _l in _M.items() for _p in _l}
NOTES = {'C21': 'Concurrent histories of list operations in virtual time (schedule points at every statement, locks that take part in it), every result judged by TLC against the list specification with overlapping operations; plus real parallelism under the race detector, whose reports count when both accesses touch a map of the library. Samples the schedules.',
         'C19': 'File operations of the process are intercepted below package os: delays, cut writes, full disk and errors at chosen operations, and a snapshot of the files at every change of the configuration file; the library is restarted from the snapshots. TLC judges every content of the file. Models a crash as losing what was not synced only for the order of file operations, not reordered disk blocks.',
         'C26': 'Every listed product and every device class is looked up in the real code and compared by TLC with tables read from the shipped files; the numbers of device and command class names are frozen in lib/devclasses.json and lib/devdata.py.',
         'C24': 'The real recorder in virtual time over a stand-in for the serial package whose ports are scripted; the log it writes is decoded and each row judged by TLC against the port operations recorded below the recorder. Samples the schedules.',
         'C25': 'The real converter program is run on gob files of random recordings with all option combinations; TLC judges the printed lines.'}
