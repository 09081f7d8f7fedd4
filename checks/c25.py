import random
import gen, patcases, rust
from c23 import NAMES

OPS = ('tandem_max', 'tandem_prim', 'maximal', 'super', 'near')
CLSN = [['A1', 'A2', 'B1', 'B2', 'C', 'D'], ['x', 'xy', 'y', 'yx', 'z', 'xz']]
CLSR = ['[A-Z]', '[xyz]']


def run(c):
    r = c.model('MCPatterns', patcases.CFG % (c.pick((3, 6), (3, 8)) + ('4',)))
    rng = random.Random(c.seed)
    cases = []
    for i, l in enumerate(patcases.logs(c, r, 4, c.pick(13, 18))):
        names = rng.choice(NAMES)
        st = []
        for o in OPS:
            st.append({'op': o, 'how': rng.choice(['fn', 'fn', 'ctx', 'part']), 'merged': False, 'bound': rng.choice([2, 3, 4, 5, 8, 20])})
        for o in OPS[2:]:
            st.append({'op': o, 'how': rng.choice(['fn', 'ctx', 'part']), 'merged': True, 'bound': 5})
        if rng.random() < 0.4:
            z = rng.randrange(2)
            names = CLSN[z]
            ids = {}
            mp = [ids.setdefault(n[0], len(ids)) for n in names]
            for s in st:
                if rng.random() < 0.5:
                    s.update(cls=CLSR[z], map=mp)
        if l:
            for _ in range(3):
                tr = rng.choice(l)
                a = rng.randrange(len(tr)) if tr else 0
                w = tr[a:a + rng.randint(1, 4)] if rng.random() < 0.7 else [rng.randrange(4) for _ in range(rng.randint(1, 3))]
                if w:
                    st.append({'op': 'words', 'how': 'fn', 'merged': rng.random() < 0.6, 'bound': 0, 'word': w})
        cases.append({'t': 'm%d' % i, 'log': l, 'names': names, 'steps': st})
    cases.append({'t': 'last-trace-ending', 'log': [[0], [0, 1], [0]], 'names': NAMES[0], 'steps': [
        {'op': 'words', 'how': 'fn', 'merged': True, 'bound': 0, 'word': [0]}]})
    c.validate('TraceRsPatterns', rust.drive(c, 'rs_patterns', cases))
