"""One run of one check: collects what was analysed, what failed, and writes evidence and verdict."""
import json, os, re, sys, time, hashlib
from . import build, run, engine, meta

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def norm_key(s):
    s = re.sub(r'\bsrc/\S+?\.rs:\d+(:\d+)?', '', s)
    s = re.sub(r'\b([a-z]{1,3})\d+\b', r'\1N', s)
    return re.sub(r'\s+', ' ', s).strip()[:200]


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.viol = []          # (key, text)
        self.keys = set()
        self.n = {}             # named counts
        self.samples = []
        self.notes = []
        self.assume = []
        self.level = meta.META.get(pid, ('', 'translation_validation'))[1]
        self.rules = []
        self.times = []

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n

    def violation(self, key, text):
        key = norm_key(key)
        if key in self.keys:
            self.count('violations repeated')
            return
        self.keys.add(key)
        self.viol.append((key, text))

    def note(self, s):
        if s not in self.notes and len(self.notes) < 60:
            self.notes.append(s)

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s[:400])

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    # ---- grammars through /repo's translator against the reference semantics
    def suite(self, name, grams, features=(), nodefault=False, prelude='', ext=None, select=None, floor=0):
        texts = [g if isinstance(g, str) else g.text() for g in grams]
        return self.product(run.Suite(name, texts, features, nodefault, prelude, ext), select, floor)

    def product(self, s, select=None, floor=0):
        name, texts = s.name, s.texts
        t0 = time.time()
        ok = s.build()
        t1 = time.time()
        self.count('witness grammars', len(texts))
        if not ok:
            self.compile_failure(s)
            return None
        cfg, tasks, problems, res = run.analyse(s, select)
        t2 = time.time()
        self.times.append('%s: build %.1fs, analysis %.1fs' % (name, t1 - t0, t2 - t1))
        for mod, rule, what in problems:
            self.violation('%s %s %s' % (name, what, mod), 'grammar %s, rule %s: %s' % (mod, rule, what))
        if len(tasks) < floor:
            self.violation('%s too few functions' % name, 'only %d functions matched in %s, expected at least %d' % (len(tasks), name, floor))
        srcs = {}
        for g in s.grams:
            for x in g.src.splitlines():
                m = re.search(r'\brule (r#\w+|\w+)', x)
                if m:
                    srcs.setdefault((g.name, m.group(1).replace('r#', '')), x.strip())
        self.count('programs', len(tasks))
        for r in res:
            t = tasks[r['i']]
            self.count('states', r['states'])
            self.count('events', r['events'])
            self.count('mir_steps', r['steps'])
            self.count('deferred_obligations', r['obl'])
            for u in r['unmodelled']:
                if u not in self.notes:
                    self.notes.append(u)
            src = srcs.get((t.gram, t.rule), t.rule)
            if r['ok']:
                if r['i'] % max(1, len(tasks) // 5) == 0:
                    self.sample('%s %s: `%s` — %d joint states, %d observable events agree' % (t.what, t.rule, src, r['states'], r['events']))
                continue
            if r.get('inconclusive'):
                self.count('not decided')
                self.note('NOT DECIDED %s: %s' % (t.rule, r['msg']))
                continue
            txt = ['%s `%s` of witness grammar `%s` (for %s)' % ('generated parser' if t.what == 'parser' else 'function generated for rule', t.rule, t.gram, s.grams[0].input),
                   'source: ' + src, r['msg'], 'at: %s  %s' % (r.get('span'), r.get('raw') or '')]
            txt += ['path (observable events on the way):'] + ['   ' + x for x in r['trail']]
            self.violation('%s::%s %s' % (t.gram, t.what, r['msg']), '\n'.join(txt))
        self.last = (s, cfg, tasks, res)
        return s

    def compile_failure(self, s):
        seen = 0
        for m in s.msgs_a:
            sp = [x for x in m['spans'] if x['is_primary']] or m['spans']
            line = ''
            if sp and sp[0]['file_name'].endswith('src/lib.rs'):
                ls = s.src_a.splitlines()
                if sp[0]['line_start'] <= len(ls):
                    line = ls[sp[0]['line_start'] - 1].strip()
            elif m['crate'] not in (None, 'wit_' + s.name):
                self.violation('tree does not build: ' + m['message'], 'crate %s does not build: %s' % (m['crate'], m['rendered']))
                seen += 1
                continue
            if m['message'].startswith('aborting due'):
                continue
            self.violation('does not compile ' + m['message'], 'a well-formed witness grammar is not accepted\nsource: %s\n%s' % (line, m['rendered']))
            seen += 1
            if seen >= 12:
                break
        if not seen:
            self.violation('does not compile', 'witness crate %s does not compile' % s.name)

    # ---- finish
    def finish(self):
        known = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r'finding: property=(\S+) key=(.*?) \| (.*)', l)
                if m and m.group(1) == self.pid:
                    known[m.group(2).strip()] = m.group(3).strip()
        bad = 0
        rdir = os.path.join(build.WORK, 'replay')
        os.makedirs(rdir, exist_ok=True)
        used = set()
        out = []
        for key, text in self.viol:
            k = [x for x in known if x == key]
            if k:
                if k[0] not in used:
                    used.add(k[0])
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k[0]]))
                continue
            bad += 1
            p = os.path.join(rdir, '%s-%s.txt' % (self.pid, hashlib.sha256(key.encode()).hexdigest()[:10]))
            with open(p, 'w') as f:
                f.write('property %s\nkey %s\n\n%s\n' % (self.pid, key, text))
            out.append((p, text))
        cov = {'programs': self.n.get('programs', 0), 'disagreements_checked': self.n.get('events', 0) or self.n.get('obligations', 0),
               'samples': self.samples, 'explanation': ' '.join(self.rules), 'counts': self.n, 'timing': self.times}
        if self.level == 'other':
            cov['explanation'] = cov['explanation'] or 'see counts'
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': bad}
        evd = os.environ.get('PEG_EVID') or os.path.join(VERIF, 'evidence')
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for p, text in out[:10]:
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            for l in text.splitlines()[:14]:
                print('    ' + l[:260])
        if len(out) > 10:
            print('    ... and %d more distinct reports, see %s' % (len(out) - 10, rdir))
        print('%s: %s; %s; %.1fs' % (self.pid, 'VIOLATED' if bad else 'held', ', '.join('%s %s' % (v, k) for k, v in self.n.items()), time.time() - self.t0))
        return 1 if bad else 0
