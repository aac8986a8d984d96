"""Which programs are run for which property: lists of (weight, profile)."""

ONLY = lambda **k: dict(types=k)
Z = lambda *names: {n: 0 for n in names}

NOPOS = {'pop': .3, 'del': .3, 'dels': .2}
C01W = dict(pop=.4, **{'del': .3}, dels=.2, clr=.3, rst=.8, upd=3.5, iadd=2, imul=.6)

PROFILES = {
    'C01': [
        (6, dict(types=dict(L=1), w=C01W)),
        (1, dict(types=dict(L=1), w=C01W, target=(0, 160), ranks=[4, 60, 90])),
        (.25, dict(types=dict(L=1), run='run_large', qrate=.3)),
    ],
    'C02': [
        (5, dict(types=dict(L=1, K=1), run='run_dense', dense=['getA', 'getsA', 'getsA'], chk=.05, steps=(15, 45))),
        (1, dict(types=dict(L=1, K=1), q=dict(getA=12, getsA=12), target=(60, 160))),
        (.25, dict(types=dict(L=1, K=1), run='run_large', largeq=['getA', 'getsA', 'getA', 'qA'], qrate=.4)),
    ],
    'C03': [
        (3, dict(types=dict(L=1, K=1), w={'pop': 12, 'del': 12, 'dels': 8, 'rem': 1, 'dis': 1}, qrate=.45)),
        (2, dict(types=dict(L=1, K=1), w={'pop': 12, 'del': 12, 'dels': 8, 'rem': 1, 'dis': 1}, qrate=.05)),
        (1, dict(types=dict(L=1, K=1), w={'pop': 12, 'del': 12, 'dels': 8}, target=(60, 150), qrate=.45)),
        (.25, dict(types=dict(L=1, K=1), run='run_large', largeops=['pop', 'pop', 'del', 'del', 'dels', 'add'])),
    ],
    'C04': [
        (5, dict(types=dict(L=1), run='run_dense', dense=['qA', 'idxA', 'idxA'], steps=(15, 45), chk=.05)),
        (1, dict(types=dict(L=1), q=dict(qA=12, idxA=12), target=(60, 160))),
        (.25, dict(types=dict(L=1), run='run_large', largeq=['qA', 'idxA'], qrate=.4)),
    ],
    'C05': [
        (5, dict(types=dict(L=1, K=1), run='run_dense', dense=['irA', 'irA', 'islA', 'islA', 'iter', 'rev', 'kirA'],
                 steps=(15, 45), chk=.05)),
        (1, dict(types=dict(L=1, K=1), q=dict(irA=12, islA=12), target=(60, 160))),
        (.2, dict(types=dict(L=1, K=1), run='run_large', largeq=['irA', 'islA', 'rev'], qrate=.25)),
    ],
    'C06': [
        (6, dict(types=dict(K=1), ranks=[4, 8, 12, 24, 40])),
        (1, dict(types=dict(K=1), target=(0, 160), ranks=[6, 60])),
        (.25, dict(types=dict(K=1), run='run_large')),
    ],
    'C07': [
        (5, dict(types=dict(K=1), run='run_dense', dense=['qA', 'idxA', 'kqA', 'kirA', 'irA', 'idxA'], steps=(15, 45),
                 chk=.05, ranks=[4, 8, 12, 24, 40])),
        (1, dict(types=dict(K=1), q=dict(qA=12, idxA=12, kqA=6, kirA=6), target=(60, 160))),
        (.25, dict(types=dict(K=1), run='run_large', largeq=['qA', 'idxA'], qrate=.4)),
    ],
    'C08': [
        (6, dict(chk=1, qrate=.3, w=dict(rst=1.2, dels=5, vdels=3), final=False)),
        (2, dict(chk=1, qrate=.3, w=dict(rst=1.2, dels=5, vdels=3), final=False, target=(40, 220), ranks=[12, 60, 90])),
        (.3, dict(run='run_large', chk=1, qrate=.3)),
    ],
    'C09': [
        (5, dict(types=dict(D=1), w=dict(vdel=.5, vdels=.4), q=dict(memA=4, peekA=4))),
        (1, dict(types=dict(D=1), target=(20, 140), ranks=[60, 90])),
        (.2, dict(types=dict(D=1), run='run_large', largeq=['memA', 'getA', 'peekA'])),
    ],
    'C10': [
        (5, dict(types=dict(D=1), run='run_dense',
                 dense=['vlen', 'viter', 'vinA', 'vcntA', 'vidxA', 'vgetA', 'vgetsA', 'vset', 'vset', 'vcmp', 'vcmp',
                        'vdisj'],
                 w=dict(vdel=6, vdels=6, deld=2, popd=2, popi=1), bm=.6, none=False, steps=(10, 35))),
        (1, dict(types=dict(D=1), target=(20, 140), ranks=[60, 90], w=dict(vdel=6, vdels=6), bm=.6, none=False)),
    ],
    'C11': [
        (5, dict(types=dict(S=1), q=dict(memA=6))),
        (1, dict(types=dict(S=1), target=(20, 160), ranks=[60, 90])),
        (.25, dict(types=dict(S=1), run='run_large', largeq=['memA', 'getA', 'len'])),
    ],
    'C12': [
        (1, dict(types=dict(S=1), run='run_algebra', steps=(30, 60), target=(0, 40))),
    ],
    'C13': [
        (5, dict(types=dict(S=1, D=1), run='run_dense',
                 dense=['getA', 'getsA', 'qA', 'idxA', 'irA', 'islA', 'rev', 'kqA', 'kirA'],
                 bm=.6, steps=(15, 45), w=dict(clr=1, rst=1.2, upd=4, difu=2, intu=1.2, symu=1.6))),
        (1, dict(types=dict(S=1, D=1), target=(20, 140), ranks=[60, 90], bm=.6)),
    ],
    'C14': [(1, dict(run='run_copy', target=(0, 40), sub=.4, wlist=True))],
    'C15': [(1, dict(run='run_fault', steps=(20, 50), target=(0, 50), fams=dict(int=2, mix=2, str=1, tup=1, rec=3, und=.7)))],
    'C16': [(3, dict(run='run_alias', steps=(30, 60), target=(0, 40))),
            (1, dict(target=(0, 90), qrate=.2)), (.2, dict(run='run_ctor', steps=(3, 6), target=(0, 20)))],
    'C17': [(1, dict(run='run_cmp', types=dict(L=3, K=3, D=1.5), steps=(30, 60), target=(0, 25), ranks=[3, 6, 12, 24]))],
    'C18': [(1, dict(run='run_track', steps=(30, 70), target=(0, 50), ranks=[12, 24, 40], qrate=.4,
                     w=dict(look=0), loads={4: 6, 5: 2, 1000: 1}))],
    'C19': [(1, dict(run='run_cost', steps=(40, 80), chk=0))],
    'C20': [(1, dict(run='run_ctor', steps=(5, 12), target=(0, 30)))],
    'C21': [(1, dict(run='run_twin', steps=(5, 12), target=(0, 60)))],
}

# what is looked at after a step of a layout tour
TOUR_Q = {
    'L': ['getA', 'getsA', 'qA', 'idxA', 'irA', 'islA', 'rev'],
    'K': ['getA', 'getsA', 'qA', 'idxA', 'irA', 'islA', 'rev', 'kqA', 'kirA'],
    'S': ['getA', 'getsA', 'qA', 'idxA', 'irA', 'islA', 'rev', 'memA', 'kqA'],
    'D': ['getA', 'getsA', 'qA', 'idxA', 'irA', 'islA', 'rev', 'memA', 'viter', 'vgetA', 'vgetsA', 'peekA', 'kqA'],
}
