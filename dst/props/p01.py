"""P01: networks saved to XML survive later saves, disk faults and crashes."""
import errno

import numpy as np

from dst import gen_nets as G
from dst import seams
from dst.core import short
from dst.simfs import SimCrash


class Saved(object):
    def __init__(self, sim, built, name):
        self.name = name
        net = built.net
        self.desc = built.desc
        self.paramdim = net.paramdim
        self.params = sorted(net.params.tolist()) if net.paramdim else []
        self.dims = (net.indim, net.outdim)
        self.seqs = [G.sequence(sim, net.indim, 4)]
        self.outs = [G.run_sequence(net, s) for s in self.seqs]


def setup():
    import pybrain.tools.customxml  # noqa


def fresh(sim, n, fam):
    name = sim.choice(('net', 'n<&">', 'a b', 'x')) + '-%d' % n
    b = G.network(sim, name, recurrent=sim.chance(0.5), depth=sim.draw(2), maxdim=3,
                  prefix=sim.choice(('', 'p.')))
    return b, name


def compare(sim, s, net, how):
    sim.check(net is not None, 'lost-network', '%s read as nothing (%s)' % (s.name, how))
    sim.check((net.indim, net.outdim) == s.dims, 'different-network',
              lambda: '%s (%s): dimensions %s, saved %s' % (s.name, how, (net.indim, net.outdim), s.dims))
    sim.check(net.name == s.name, 'different-network', lambda: 'name %r, saved %r (%s)' % (net.name, s.name, how))
    sim.check(net.paramdim == s.paramdim, 'different-network',
              lambda: '%s (%s): %d parameters, saved %d' % (s.name, how, net.paramdim, s.paramdim))
    if s.paramdim:
        sim.check(sorted(net.params.tolist()) == s.params, 'different-parameters',
                  lambda: '%s (%s): parameter values changed' % (s.name, how))
    for seq, out in zip(s.seqs, s.outs):
        got = G.run_sequence(net, seq)
        sim.check(G.same_outputs(got, out), 'different-outputs',
                  lambda: '%s (%s) [%s]: outputs %s, saved network gave %s' % (s.name, how, s.desc, short(got), short(out)))


def run(sim):
    from pybrain.tools.customxml import NetworkWriter, NetworkReader
    sim.seed_globals()
    fs = seams.use_fs(sim)
    fs.bufsize = sim.choice((64, 512, 4096))
    faulty = sim.chance(0.75)
    files = {}                  # path -> list of acknowledged Saved, in file order
    maybe = {}                  # path -> (old list, new list) when a save was interrupted
    names = [fs.path(n) for n in ('a.xml', 'b.xml')[:1 + sim.draw(2)]]
    nets = []
    count = 0

    def verify(path, depth='all'):
        """read the file back as a restarted process would"""
        cands = maybe.pop(path, None)
        if cands is None:
            cands = [files.get(path)]
        import os
        if not os.path.exists(path):
            ok = [c for c in cands if not c]
            sim.check(ok, 'lost-file', lambda: 'the file is gone; it held %s' % [s.name for s in cands[0]])
            files.pop(path, None)
            return
        # which candidate does the file hold?  decided by the number of networks readable by position
        sizes = sorted(set(len(c or []) for c in cands), reverse=True)
        present = None
        err = None
        for n in sizes:
            if n == 0:
                continue
            try:
                NetworkReader.readFrom(path, index=n - 1)
                present = n
                break
            except Exception as e:
                err = e
        if present is None:
            sim.violate('unreadable-file', 'after an interrupted or completed save, %s: %s (%s)' %
                        (os.path.basename(path), type(err).__name__, err))
        matching = [c for c in cands if c and len(c) == present]
        last = None
        for c in matching:
            try:
                for i, s in enumerate(c):
                    compare(sim, s, NetworkReader.readFrom(path, index=i), 'by position')
                    same_name = [x for x in c if x.name == s.name]
                    if same_name[0] is s:
                        compare(sim, s, NetworkReader.readFrom(path, name=s.name), 'by name')
                    sim.probe('verified-network')
                files[path] = c
                return
            except Exception as e:
                last = e
                if len(matching) == 1:
                    raise
        raise last

    for k in sim.ops(6, 14):
        op = sim.weighted([(4, 'write'), (6, 'append'), (3, 'read'), (1, 'train'), (2, 'resave')])
        path = names[sim.draw(len(names))]
        if op == 'append' and not files.get(path):
            op = 'write'
        if op in ('write', 'append', 'resave'):
            if op == 'resave' and nets:
                b, nm = nets[sim.draw(len(nets))]
                op = 'append' if files.get(path) and sim.chance(0.6) else 'write'
                # a name may occur twice in a file: the first one is found by name
            else:
                if op == 'resave':
                    op = 'append' if files.get(path) else 'write'
                count += 1
                b, nm = fresh(sim, count, k)
                nets.append((b, nm))
            s = Saved(sim, b, nm)
            old = files.get(path)
            new = [s] if op == 'write' else (old or []) + [s]
            armed = None
            if faulty and sim.chance(0.5):
                armed = sim.choice(('crash', 'error'))
                at = 1 + sim.draw(sim.choice((4, 14, 40)))
                if armed == 'crash':
                    fs.arm(crash_at=at, torn=sim.chance(0.5))
                else:
                    fs.arm(fail_at=at, err=sim.choice((errno.ENOSPC, errno.EIO, errno.EMFILE)),
                           sticky=sim.chance(0.5), torn=sim.chance(0.3))
            sim.log(op, path[-5:], nm, s.desc, armed or '')
            outcome = 'ok'
            try:
                if op == 'write':
                    NetworkWriter.writeToFile(b.net, path)
                else:
                    NetworkWriter.appendToFile(b.net, path)
            except SimCrash:
                outcome = 'crash'
            except OSError as e:
                if fs.fired != 'error':
                    raise
                outcome = 'raised'
            fired = fs.fired
            fs.disarm()
            fs.fired = None
            sim.log('->', outcome)
            if outcome == 'ok':
                files[path] = new
                maybe.pop(path, None)
            else:
                fs.reboot()
                if outcome == 'crash':
                    sim.probe('crash-during-save')
                else:
                    sim.probe('error-during-save')
                maybe[path] = [old, new]
                verify(path)
                continue
            if sim.chance(0.4):
                verify(path)
        elif op == 'train' and nets:
            # changing the live network must not change what was saved
            b, nm = nets[sim.draw(len(nets))]
            if b.net.paramdim:
                b.net.mutate()
            sim.log('mutate', nm)
        elif op == 'read' and files.get(path):
            c = files[path]
            i = sim.draw(len(c))
            how = sim.draw(2)
            if faulty and sim.chance(0.25):
                fs.arm(fail_at=1 + sim.draw(4), err=errno.EIO)
            sim.log('read', path[-5:], i)
            try:
                if how:
                    first = [x for x in c if x.name == c[i].name][0]
                    net = NetworkReader.readFrom(path, name=c[i].name)
                    fs.disarm()
                    compare(sim, first, net, 'by name')
                else:
                    net = NetworkReader.readFrom(path, index=i)
                    fs.disarm()
                    compare(sim, c[i], net, 'by position')
                if sim.chance(0.3):
                    nets.append((G.Built(net, c[i].desc, c[i]), c[i].name))
            except OSError:
                if fs.fired != 'error':
                    raise
                sim.probe('read-error-reported')
            fs.disarm()
            fs.fired = None
        sim.state(op, faulty, tuple(len(files.get(p) or []) for p in names), bool(maybe))
    for p in names:
        if files.get(p):
            verify(p)
