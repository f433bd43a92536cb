"""Checks that compare library-call programs of some areas with the reference."""
import check, tmpl, gen


def run(prop, rule, areas, quick=(24000, 3000), thorough=(150000, 20000), profiles=(), hostile=(0.02, 0.06, 0.2), histories=(), nhist=(6000, 60000)):
    def body(chk):
        def make(i):
            r = chk.rng(i)
            if profiles and i % 5 == 4:
                return gen.Gen(r, **profiles[(i // 5) % len(profiles)]).program()
            return tmpl.program(r, areas[i % len(areas)], hostile=hostile[(i // len(areas)) % len(hostile)])

        def features(chk, p, ev, x):
            for e in ev:
                if e[0] == 'X':
                    chk.counts['errors predicted'] += 1
        def dense(i):
            return histories[i % len(histories)](chk.rng('history', i))
        if histories:
            check.differential(chk, dense, chk.n(*nhist), features=features, batch=1200, max_steps=400000)
            check.differential(chk, lambda i: dense(i + 10 ** 7), chk.n(nhist[0] // 8, nhist[1] // 8), variants=('asan',), batch=1200, max_steps=400000)
        check.differential(chk, make, chk.n(quick[0], thorough[0]), features=features, batch=1500)
        check.differential(chk, lambda i: make(i + 10 ** 7), chk.n(quick[1], thorough[1]), variants=('asan',), batch=1200)
    check.main(prop, rule, body)
