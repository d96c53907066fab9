"""Minimises a run (see sim/src/spec.rs for the format) while the same class of violation persists."""
import time


class Run:
    def __init__(self, text):
        self.head, self.actors, self.extra, self.mode = [], [], [], ''
        for line in text.splitlines():
            w = line.split()
            if not w or line.startswith('#'):
                continue
            if w[0] == 'actor':
                self.actors.append({'root': '0', 'entry': 'read', 'args': [], 'start': 0, 'base': 0, 'image': b'', 'bad': [], 'nest': None, 'acts': []})
            elif w[0] == 'extra':
                self.extra += [int(x) for x in w[1:]]
            elif not self.actors:
                self.head.append(line)
                if w[0] == 'mode':
                    self.mode = w[1]
            else:
                a = self.actors[-1]
                if w[0] == 'root':
                    a['root'] = w[1]
                elif w[0] == 'entry':
                    a['entry'] = ' '.join(w[1:])
                elif w[0] == 'args':
                    a['args'] = [int(x) for x in w[1:]]
                elif w[0] == 'start':
                    a['start'] = int(w[1])
                elif w[0] == 'base':
                    a['base'] = int(w[1])
                elif w[0] == 'image':
                    a['image'] = bytes.fromhex(w[1]) if len(w) > 1 else b''
                elif w[0] == 'bad':
                    a['bad'].append((int(w[1]), int(w[2])))
                elif w[0] == 'nest':
                    a['nest'] = (int(w[1]), int(w[2]))
                elif w[0] == 'act':
                    a['acts'].append((int(w[1]), ' '.join(w[2:])))

    def copy(self):
        r = Run('')
        r.head, r.mode, r.extra = self.head, self.mode, list(self.extra)
        r.actors = [dict(a, args=list(a['args']), bad=list(a['bad']), acts=list(a['acts'])) for a in self.actors]
        return r

    def text(self):
        out = list(self.head)
        for a in self.actors:
            out += ['actor', 'root ' + a['root'], 'entry ' + a['entry'], 'args ' + ' '.join(map(str, a['args'])), 'start %d' % a['start']]
            out += ['base %d' % a['base']] if a['base'] else []
            out += ['image ' + a['image'].hex()]
            out += ['bad %d %d' % b for b in a['bad']]
            if a['nest']:
                out.append('nest %d %d' % a['nest'])
            out += ['act %d %s' % x for x in a['acts']]
        for i in range(0, len(self.extra), 64):
            out.append('extra ' + ' '.join(map(str, self.extra[i:i + 64])))
        return '\n'.join(out)


# how many numbers of `extra` belong together, by mode; 0: leave alone
UNIT = {'parse': 0, 'cut': 0, 'stream': 0, 'cursor': 3, 'adapt': 3, 'conc': 1, 'template': 1, 'hostile': 0, 'equal': 0}


def shrink(text, cls, srv, limit=1500, seconds=25):
    t0 = time.time()
    best = Run(text)
    verdict = srv.judge(best.text())
    n = [1]

    def ok(c):
        nonlocal best, verdict
        if n[0] >= limit or time.time() - t0 > seconds:
            return False
        n[0] += 1
        v = srv.judge(c.text())
        if v.get('class') == cls:
            best, verdict = c, v
            return True
        return False

    def drop_list(get, unit=1):
        size = len(get(best)) // unit // 2 or 1
        while size >= 1:
            i = 0
            while i * unit < len(get(best)):
                c = best.copy()
                del get(c)[i * unit:(i + size) * unit]
                if not ok(c):
                    i += size
            size //= 2

    changed = True
    rounds = 0
    while changed and rounds < 3 and n[0] < limit:
        before = best.text()
        rounds += 1
        # whole actors; the first one is the image of a stream or the output of a template
        size = (len(best.actors) - 1) // 2 or 1
        while size >= 1:
            k = 1 if len(best.actors) > 1 and best.mode.rstrip('0123456789') != 'conc' else 0
            while k < len(best.actors) and len(best.actors) > 1:
                c = best.copy()
                del c.actors[k:k + size]
                for a in c.actors:
                    if a['nest'] and a['nest'][1] >= k:
                        a['nest'] = (a['nest'][0], a['nest'][1] - size) if a['nest'][1] >= k + size else None
                if not c.actors or not ok(c):
                    k += size
            size //= 2
        for k in range(len(best.actors)):
            drop_list(lambda r: r.actors[k]['acts'])
            drop_list(lambda r: r.actors[k]['bad'])
        unit = UNIT.get(best.mode.rstrip('0123456789'), 0)
        if unit:
            drop_list(lambda r: r.extra, unit)
            for i in range(0, len(best.extra)):
                if unit == 1 and best.extra[i]:
                    c = best.copy()
                    c.extra[i] = 0
                    ok(c)
        for k in range(len(best.actors)):
            if best.actors[k]['base']:
                c = best.copy()
                a = c.actors[k]
                a['start'] -= min(a['base'], a['start'])
                w = a['entry'].split()
                if w[0] == 'options' and int(w[3]) >= a['base']:
                    a['entry'] = ' '.join(w[:3] + [str(int(w[3]) - a['base'])])
                a['bad'] = [(x - a['base'], y - a['base']) for x, y in a['bad'] if x >= a['base']]
                a['base'] = 0
                ok(c)
            if best.actors[k]['nest']:
                c = best.copy()
                c.actors[k]['nest'] = None
                ok(c)
            if best.actors[k]['entry'] != 'read':
                c = best.copy()
                c.actors[k]['entry'] = 'read'
                ok(c)
            for i in range(len(best.actors[k]['args'])):
                c = best.copy()
                c.actors[k]['args'][i] = 0
                if best.actors[k]['args'][i]:
                    ok(c)
            # the image: shorter, then simpler
            cut = len(best.actors[k]['image']) // 2
            while cut >= 1:
                c = best.copy()
                c.actors[k]['image'] = c.actors[k]['image'][:-cut]
                if not ok(c):
                    cut //= 2
            size = 8
            while size >= 1:
                for i in range(0, len(best.actors[k]['image']), size):
                    img = best.actors[k]['image']
                    z = img[:i] + bytes(len(img[i:i + size])) + img[i + size:]
                    if z != img:
                        c = best.copy()
                        c.actors[k]['image'] = z
                        ok(c)
                size //= 4 if size == 8 else 2
            # failures as early as possible and plain
            for i, (op, act) in enumerate(list(best.actors[k]['acts'])):
                if act.startswith('short ') and act != 'short 1':
                    c = best.copy()
                    c.actors[k]['acts'][i] = (op, 'short 1')
                    ok(c)
        changed = best.text() != before
    return best.text(), verdict, n[0]
