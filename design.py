"""Writes DESIGN.md: design_head.md, then one section per property, the findings and the seeded bugs."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props                                                    # noqa: E402

# the reference each check compares with, and what the code under it is given
ORACLE = {
    'P01': 'textbook formulas over pooled counts (`checks/p01.py`), rounded half up; missing where a needed count is missing in all records or a denominator is zero. Each `calculate_*` function of `ctc_statistics` is run on a table of symbolic cells, each with an "is missing" flag.',
    'P02': 'formulas over pair-weighted means; the variance terms are shared with the reference by structure, so the solver decides polynomial identities under the path condition (sign of the variance, zero totals).',
    'P03': 'as P02 with wind components; directions through an uninterpreted arc tangent with quadrant axioms.',
    'P04': 'formulas of the ensemble lines; weighted means and spread under a square root that is exact (`r*r == x, r >= 0`).',
    'P05': 'formulas of the fraction skill scores, neighborhood contingency scores and gradient scores over weighted means.',
    'P06': 'Brier decomposition and trapezoidal ROC area over pooled bins, bins given in symbolic order.',
    'P07': 'the Heidke skill score with expected correct over symbolic k x k tables in any cell order; economic value by its definition, ratios sorted by comparison with the symbolic base rate (forks).',
    'P08': 'counts over the objects that satisfy each flag combination; flags symbolic 0/1, so every combination is explored.',
    'P09': 'as P08 with sums of symbolic areas or volumes.',
    'P10': 'result is missing or a finite number; the input table and the warnings filter are as before the call. Covers every `calculate_*` of every line type through the dispatcher.',
    'P11': 'the definition of P02-P05 applied to means weighted by the pairs of each reported record; the real `AggStat` tool is run from records to output row.',
    'P12': 'a filter written directly over the records: the point gets the records whose series, axis, variable and (for groups) member match, and no others; order of output rows as requested; probability scores use the event frequency of those same records.',
    'P13': 'difference, ratio, skill score of two curve values, over equal cases; perfect scores by table.',
    'P14': 'grouping by case; per statistic columns weighted by pairs, counts added; one row per case.',
    'P15': 'the statistic functions decided in P01-P07 on each record, or on records pooled by P14\'s reference for groups.',
    'P16': 'set intersection of the cases of all series permutations; the order and values of kept records unchanged.',
    'P17': 'draws are symbolic inputs; the resample is the list of records drawn; bounds are linearly interpolated percentiles of the resampled statistics.',
    'P18': 'P08/P09 ratios over resampled cases (all objects of a drawn case).',
    'P19': 'P07\'s economic value on the records of the labelled series and threshold.',
    'P20': 'difference of the two statistics, EMC and NCAR significance by their tables, per label.',
    'P21': 'two one-sided t tests as formulas over an uninterpreted t distribution that is odd, increasing and bounded by scipy\'s values at nine quantiles.',
    'P22': 'standard error formulas with variance inflation from the lag-1 coefficient; missing values dropped first.',
    'P23': 'definitions of lag correlations, runs and their expectation, revision counts.',
    'P24': 'linear interpolation between the bracketing surfaces, nearest value outside; heights summed layer by layer (moist thermodynamics uninterpreted).',
    'P25': 'piecewise linear definition; difficulty index formula and its exclusion of missing references.',
    'P26': 'modular arithmetic of longitudes, averages over the band selected by definition.',
    'P27': 'one point per threshold, ordered by (comparison, number).',
    'P28': 'projection with numpy\'s own sine and cosine of the azimuths.',
    'P29': 'the 1-2-1 filter (the weight of an absent neighbour stays with the value), (f(y)+-f(-y))/2, coherence and phase formulas.',
    'P30': 'normal equations of the patterns, means of the 120 days before, patterns by calendar day.',
    'P31': 'height-gradient conditions at the shifted latitudes; group membership around the circle computed by brute force over a concrete circle.',
    'P32': 'permutation applied to labels, centres and frequencies alike, best match by correlation.',
    'P33': 'the discrete Fourier sum written out.',
    'P35': 'shallow-water dispersion relation per mode, with the position of the starting value of the root finder deciding the root.',
    'P36': 'direct definitions over the symbolic values: selection, sum and itertools.product of the lists.',
    'P34': 'segment-wise double Fourier sum, tapered and detrended as documented.',
}


def cost(pid):
    p = os.path.join(HERE, 'costs.json')
    return json.load(open(p)).get(pid, '') if os.path.exists(p) else ''


def main():
    out = [open(os.path.join(HERE, 'design_head.md')).read().rstrip(), '', '## Properties', '']
    for p in props.PROPS:
        m = importlib.import_module('checks.' + p['id'].lower())
        a = [x for x in getattr(m, 'ASSUMPTIONS', []) if not x.startswith('floating point is modelled')]
        out += [f'### {p["id"]} {p["title"]}', '',
                f'*Decides:* {p["statement"]}', '',
                f'*Oracle:* {ORACLE[p["id"]]}', '',
                f'*Bounds:* {p["forall"]}. *Cost (quick tier, 8 cores):* {cost(p["id"])}.', '',
                f'*Why tests cannot settle it:* {p["why"]}', '']
        if a:
            out += ['*Stand-ins and limits:* ' + '; '.join(a) + '.', '']
    k = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    out += ['## Known findings (open)', '']
    out += [f'* {x["property"]}: {x["what"]}' for x in k if x.get('status') == 'open']
    out += ['', '## Defects found and repaired', '',
            'Each is one "fix:" commit in /repo, found as a replayed counterexample (or while writing the reference).', '']
    out += [f'* {x["entry"].removeprefix("fixed: property=")}' for x in k if x.get('status') == 'fixed']
    out += ['', '## Seeded bugs', '',
            'Each was written from the statement and the code, passes the test suite and has a demonstration. '
            '"Caught" is the verdict of the check of its own property, run with the patch applied.', '',
            '| bug | needs | verdict |', '|---|---|---|']
    sd = os.path.join(HERE, 'seeded')
    caught = json.load(open(os.path.join(HERE, 'seeded_results.json'))) if os.path.exists(os.path.join(HERE, 'seeded_results.json')) else {}
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, d, 'meta.json')))
        out.append(f'| {d} | {m["needs"].replace("|", "/")} | {caught.get(d, "not run")} |')
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
