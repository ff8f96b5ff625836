"""Validate recorded histories against a trace specification with TLC."""
import json, re
import tlc


def validate(check, module, histories, timeout=800, consts=None, chunk=20000, known=None, what='history', heap='6g'):
    """histories: list of lists of events (dicts), each starting with its reset event.

    The trace spec prints REJECT {line, clauses, expected} for the first event of a history which is not a
    step of the specification, then skips to the next history.  Returns the list of rejections and reports
    each of them through check.report (signature = op/clauses, or known(ev, clauses))."""
    rejects = []
    i = 0
    while i < len(histories):
        batch, n = [], 0
        while i < len(histories) and (n == 0 or n + len(histories[i]) <= chunk):
            batch.append(histories[i]); n += len(histories[i]); i += 1
        lines, where = [], []
        for h, hist in enumerate(batch):
            for j, ev in enumerate(hist):
                lines.append(json.dumps(ev)); where.append((h, j))
        try:
            r = tlc.run(module, 'SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n', consts=consts,
                        workers=1, files={'trace.ndjson': '\n'.join(lines) + '\n'}, timeout=timeout, heap=heap)
        except tlc.TLCError as e:
            m = re.findall(r'^(?:/\\ )?l = (\d+)', e.out, re.M)
            if not m or not ('TLC was evaluating' in e.out or 'ttempted to' in e.out) or 'OutOfMemory' in e.out:
                raise
            # what was recorded is outside anything the specification can even evaluate (missing rows, huge numbers)
            h, j = where[min(int(m[-1]), len(where)) - 1]
            sig = '%s:unreadable' % batch[h][j].get('op', '?')
            rejects.append((sig, batch[h], j, {}))
            check.report(sig, dict(kind='recorded %s cannot be evaluated by the specification' % what, module=module,
                                   event_index=j, event=batch[h][j], history=batch[h][:j + 1][-8:]))
            continue
        check.count('trace_events', len(lines))
        check.count('trace_states', r.distinct)
        check.traces += len(batch)
        for dev in r.json_lines('DEVIATES'):            # deviations the specification names one by one
            h, j = where[dev['line'] - 1]
            for cl in dev['clauses']:
                check.report(cl, dict(kind='named deviation from the specification', module=module, event=batch[h][j],
                                      history=batch[h][:j + 1][-8:]))
        for rej in r.json_lines('REJECT'):
            h, j = where[rej['line'] - 1]
            ev = batch[h][j]
            clauses = sorted(rej['clauses'])
            sig = known(ev, clauses, batch[h]) if known else None
            if sig is None:
                sig = '%s:%s' % (ev.get('op', '?'), ','.join(clauses))
            rejects.append((sig, batch[h], j, rej))
            check.report(sig, dict(kind='recorded %s is not a behaviour of the specification' % what,
                                   module=module, clauses=clauses, event_index=j, event=ev,
                                   expected=rej.get('expected'), history=batch[h][:j + 1][-8:]))
    return rejects
