"""Scenarios of trace sources: times, ids and names that the abstract ones of the specification stand for."""
VALUES = ['0', '1', '-1', '42', '9223372036854775807', '-9223372036854775808', '4294967296', '-77']
TIDS = ['1', '139688084124608', '18446744073709551615', '4294967297']
KINDS = {'entry': 'scope_entry', 'exit': 'scope_exit', 'global': 'mark_event_global', 'process': 'mark_event_process', 'thread': 'mark_event_thread', 'count': 'count_event'}
# number of the id -> name; 3 to 8 are meant for counters; 9 has no name
NAMES = {1: 'main', 2: 'void f<int>(const char *) "q" \\', 3: 'cnt/x', 4: 'cnt/y', 5: 'cnt/z ☂', 6: 'other/x', 7: 'cnt/', 8: 'cnt'}
SERIES = 'count'
hx = lambda s: 'x' + s.encode().hex()

class Setup:
    """The concrete side of one scenario."""
    def __init__(self, rng, procs=3, gap_ns=1000):
        ids = rng.sample([0, 1, 2, 15, 255, 4144779573, 4294967295, 2147483648, 16777216, 77777, 123456789, 3000000000], 9)
        self.ids = dict(zip(range(1, 10), ids))
        t = rng.choice([1000, 10**9, 1544361620739021131, 1700000000 * 10**9, 4102444800 * 10**9])
        self.ns = []
        for _ in range(12):
            self.ns.append(t)
            t += rng.choice([gap_ns, gap_ns + 234, 10**6, 10**10])
        self.names = []
        for p in range(1, procs + 1):
            n = dict(NAMES)
            if p == 3: n[1], n[2] = n[2], n[1]; n[3], n[4] = n[4], n[3]
            if p == 2: n.pop(2)
            self.names.append(n)
        self.rng = rng
    def seconds(self, t): return f'{self.ns[t] // 10**9}.{self.ns[t] % 10**9:09d}'
    def preamble(self):
        out = [f'time {self.seconds(t)}' for t in range(len(self.ns))]
        out += [f'id {i} {v}' for i, v in self.ids.items()]
        out += [f'name {p} {i} {hx(v)}' for p, n in enumerate(self.names, 1) for i, v in n.items()]
        return out + [f'procs {len(self.names)}']
    def table(self):
        def one(n):
            if n is None: return {'full': '', 'cn': '', 'cs': ''}
            a, _, b = n.partition('/')
            return {'full': hx(n), 'cn': hx(a), 'cs': hx(b or SERIES)}
        return [[one(n.get(i)) for i in range(1, 10)] for n in self.names]
    def event(self, s):
        return {'t': s['t'], 'p': s['p'], 'tid': TIDS[s['tid'] - 1], 'k': s['k'], 'id': s['id'], 'v': VALUES[s['v'] - 1]}
    def line(self, s):
        """As babeltrace prints it; the harness puts the process id in place of @p@."""
        r, k = self.rng, s['k']
        ev = [f"vpid = @{s['p']}@", f"pthread_id = {TIDS[s['tid'] - 1]}"]
        data = [f"id = {self.ids[s['id']]}"]
        if r.random() < .3: ev.insert(r.randrange(3), 'procname = "a, b }"')
        name = KINDS.get(k) or r.choice(list(KINDS.values()))
        dom = 'scalopus_scope_id'
        if k == 'notid': ev = [e for e in ev if 'pthread' not in e]
        if k == 'nopid': ev = [e for e in ev if 'vpid' not in e]
        if k == 'novalue': name = KINDS['count']
        elif name == KINDS['count']: data.append(f"value = {VALUES[s['v'] - 1]}")
        if k == 'unknown': name = r.choice(['scope_enter', 'mark_event', 'x', 'count_events'])
        if k == 'domain': dom = r.choice(['scalopus_scope', 'lttng_ust', 'other'])
        b = lambda f: '{ ' + ', '.join(f) + ' }' if f else '{ }'
        line = f"[{self.seconds(s['t'])}] eagle {dom}:{name}: {b(['cpu_id = 2'])}, {b(ev)}, {b(data)}"
        if k == 'cut':
            line = line[:r.randrange(1, len(line) - 1)].replace('@', '5')
        if k == 'junk': line = r.choice(['[warning] Tracer discarded 3 events between [12:00:01.5] and [12:00:02.5] in trace', 'error', '}{', '[1', 'x' * 5000])
        if k == 'blank': line = ''
        return line + '\n'
