"""Driving time_tracking with scripted or real snapshots, against mc.track_ref."""
import numpy as np

from .core import Violation
from .track_ref import Ambiguous, Tracks, brief, pair_up, table
from .world import dataset, eddies, is_empty, track, tracker


def scripted_class():
    from trackeddy.trackeddy import TrackEddy

    class Scripted(TrackEddy):
        script = ()
        calls = 0

        def _detect_snapshot(self, time, levels):
            self.calls += 1
            return table(self.script[time])

    return Scripted


def run_script(script, ntimes=None, t0=None, tf=None, online=True, out_path=None):
    """-> (tracker, table of tracks, whether the script was used)."""
    ds = dataset(np.zeros((len(script), 4, 5)), np.arange(5.0), np.arange(4.0))
    tr = tracker(ds, cls=scripted_class())
    tr.script = script
    if out_path:
        tr.out_path = out_path
    kw = {}
    if ntimes is not None:
        kw["ntimes"] = ntimes
    if t0 is not None:
        kw["t0"] = t0
    if tf is not None:
        kw["tf"] = tf
    if not online:
        kw["online_track"] = False
    res = track(tr, np.array([0.5]), **kw)
    return tr, res, tr.calls > 0


def by_time(result):
    out = {}
    for e in eddies(result):
        out.setdefault(int(e["time"]), []).append(e)
    return out


def conserved(script, result, times, t, what):
    """Every detection of every snapshot is in the table once, unchanged.
    -> {time: {index of the detection: identifier}}"""
    got = by_time(result)
    for time in got:
        t.check(time in times, "%r: eddies at time %r, which was not tracked", what, time)
    ids = {}
    for time in times:
        pairs = pair_up(script[time], got.get(time, []))
        if isinstance(pairs, str):
            t.check(False, "%r: time %d: %s; detected %r, tracked %r", what, time, pairs,
                    [brief(e) for e in script[time]], [brief(e) for e in got.get(time, [])])
        ids[time] = {k: int(got[time][j]["id"]) for j, k in pairs.items()}
        t.check(True, "")
    return ids


def identities(script, ids, times, ntimes, t, what):
    """The identifiers follow the reference tracker."""
    ref = Tracks(ntimes)
    for time in times:
        new = script[time]
        cont = ref.step(time, new)
        mine = ids[time]
        t.check(len(set(mine.values())) == len(mine), "%r: time %d: two eddies with the same identifier: %r",
                what, time, mine)
        fresh = {}
        for k in range(len(new)):
            if k in cont:
                t.check(mine[k] == cont[k], "%r: time %d: eddy %r has identifier %r, but continues track %r",
                        what, time, brief(new[k]), mine[k], cont[k])
            else:
                t.check(mine[k] not in ref.tracks, "%r: time %d: eddy %r starts a track, but has the identifier "
                        "%r of an earlier one", what, time, brief(new[k]), mine[k])
                fresh[k] = mine[k]
        ref.commit(time, new, cont, fresh)
    used = sorted({i for m in ids.values() for i in m.values()})
    t.check(used == list(range(len(used))), "%r: the identifiers %r are not 0..%d", what, used, len(used) - 1)


def decide(script, t, what, ntimes=None, identity=True):
    """Run a script and compare with the model. Returns ids, None if not decided."""
    try:
        tr, res, used = run_script(script, ntimes)
    except Violation:
        raise
    t.op(len(script))
    if not used:
        t.trivial()
        return None
    times = range(len(script))
    ids = conserved(script, res, times, t, what)
    t.state([sorted(m.values()) for m in ids.values()])
    if identity:
        try:
            identities(script, ids, times, 5 if ntimes is None else ntimes, t, what)
        except Ambiguous:
            t.trivial()
    return ids
