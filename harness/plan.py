"""What each check runs: specification models and trace shards, per tier."""
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(HERE, 'known_findings.txt')

MODELS = {
    'PySeq': dict(module='PySeqMC', quick='PySeqMC.cfg', thorough='PySeqMC_big.cfg', what=
                  'the sequence operators of the contract against their definitions'),
    'JenksL': dict(module='JenksMC', quick='JenksMC_l.cfg', thorough='JenksMC_l_big.cfg', what=
                   'the list-of-lists algorithm (unkeyed): storage invariants, refinement of the contract, every query'),
    'JenksK': dict(module='JenksMC', quick='JenksMC_k.cfg', thorough='JenksMC_k_big.cfg', what=
                   'the list-of-lists algorithm (keyed): storage invariants, refinement of the contract, every query'),
    'Layout': dict(module='LayoutMC', quick='LayoutMC.cfg', thorough='LayoutMC_big.cfg', what=
                   'one step from every layout of runs; its steps are the obligations of the tours'),
    'LayoutK': dict(module='LayoutMC', quick='LayoutMC_k.cfg', thorough='LayoutMC_k_big.cfg', what=
                    'the same for the keyed algorithm'),
    'Index': dict(module='IndexInd', tool='apalache', inv='IndInv', goal='Right',
                  quick=['IndexInd_5.cfg', 'IndexInd_9.cfg'],
                  thorough=['IndexInd_%d.cfg' % n for n in (2, 3, 5, 8, 9, 16, 17)], what=
                  'the positional index by induction (Apalache), run lengths unbounded: updates keep the sums, '
                  'and _pos and _loc are right and inverse'),
    'SetAlg': dict(module='SetDictMC', quick='SetDictMC_s.cfg', thorough='SetDictMC_s_big.cfg', what=
                   'the algorithms of SortedSet, failing comparisons included: refinement, atomicity, table = list'),
    'DictAlg': dict(module='SetDictMC', quick='SetDictMC_d.cfg', thorough='SetDictMC_d_big.cfg', what=
                    'the algorithms of SortedDict, failing comparisons included: refinement, atomicity, table = list'),
    'SetSteps': dict(module='SetDictMC', quick='SetDictMC_st.cfg', what=
                     'the same with more equal objects; its steps are taken by the real code (harness/steps.py)'),
    'DictSteps': dict(module='SetDictMC', quick='SetDictMC_dt.cfg', what=
                      'the same with more equal objects; its steps are taken by the real code (harness/steps.py)'),
    'Laws': dict(module='LawsMC', quick='LawsMC.cfg', thorough='LawsMC_big.cfg', what=
                 'comparison and set operators of the specification against their definitions'),
}

ASSUME = ['the recorded element codes identify the real objects (harness/uni.py decode)',
          'TLC and the Java overrides of the CommunityModules compute the operators as defined',
          'bounds: histories, sizes and load factors are those generated for this seed']


def P(models, quick=(('rec', 8, 18000),), thorough=(('rec', 48, 20000),), **kw):
    return dict(models={'quick': models}, shards={'quick': list(quick), 'thorough': list(thorough)},
                level='model_checking', assumptions=ASSUME, **kw)


TQ = (('rec', 6, 18000), ('tour', 2, 14000))
TT = (('rec', 36, 20000), ('tour', 12, 20000))
QS = (('steps', 1, 15000),)
TS = (('steps', 6, 18000),)
PLAN = {
    'C01': P(['PySeq', 'JenksL'], TQ, TT),
    'C02': P(['PySeq', 'JenksL', 'JenksK', 'Index'], TQ, TT),
    'C03': P(['PySeq', 'JenksL', 'JenksK'], TQ, TT),
    'C04': P(['PySeq', 'JenksL'], TQ, TT),
    'C05': P(['PySeq', 'JenksL', 'JenksK'], TQ, TT),
    'C06': P(['PySeq', 'JenksK'], TQ, TT),
    'C07': P(['PySeq', 'JenksK'], TQ, TT),
    'C08': P(['JenksL', 'JenksK', 'LayoutK', 'Index'], TQ, TT),
    'C09': P(['PySeq', 'DictAlg'], TQ + QS, TT + TS, steps='D'),
    'C10': P(['PySeq', 'Laws']),
    'C11': P(['PySeq', 'SetAlg'], TQ + QS, TT + TS, steps='S'),
    'C12': P(['Laws', 'SetAlg']),
    'C13': P(['PySeq', 'JenksL', 'JenksK'], TQ, TT),
    'C14': P(['PySeq']),
    'C15': P(['SetAlg', 'DictAlg'], (('rec', 7, 18000),) + QS, (('rec', 40, 20000),) + TS, steps='SD'),
    'C16': P(['PySeq']),
    'C17': P(['Laws']),
    'C18': P(['PySeq']),
    'C19': P(['PySeq'], (('rec', 8, 8000),), (('rec', 48, 10000),)),        # big containers: costly events
    'C20': P(['PySeq']),
    'C21': P(['PySeq', 'SetAlg', 'DictAlg'], (('rec', 7, 18000),) + QS, (('rec', 44, 20000),) + TS, steps='SD'),
}
