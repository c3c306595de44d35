"""The properties, in the order of properties.jsonl."""
U = 'metcalcpy/util/'


def P(id, title, statement, forall, why, files, mech, observe, **kw):
    return dict(id=id, title=title, statement=statement, forall=forall, why=why, files=files, mech=mech,
                observe=observe, **kw)


FIXED = 'The existing tests compare a few rows of recorded data with numbers printed by an earlier implementation; '

PROPS = [
    P('P01', 'Contingency-table scores equal their definitions',
      'For any set of 2x2 contingency-count records, every categorical score (base rate, accuracy, frequency bias, mean '
      'forecast, hit and false-alarm rates, false alarm ratio, critical success index, Gilbert, Hanssen-Kuipers, Heidke, odds '
      'ratio and its logarithm, ORSS, SEDS/SEDI/EDS/EDI, bias-adjusted Gilbert, totals and marginal counts) equals its textbook '
      'formula applied to the counts pooled over all records, rounded half-up to seven decimals. '
      'Missing counts are skipped while pooling, and the score is missing (never an exception, infinity or NaN) exactly when a '
      'count it needs is missing in every record or its formula is undefined.',
      'all counts (any real or missing) in 1-3 records, plus 17-60 records with symbolic first and last record',
      FIXED + 'zero margins, missing counts and algebraic edge cases are hardly reached.',
      [U + 'ctc_statistics.py', U + 'utils.py'],
      [('one function per statistic over the pooled columns', U + 'ctc_statistics.py'),
       ('sum_column_data_by_name / round_half_up', U + 'utils.py')],
      ['return value of each statistic function']),
    P('P02', 'Scalar partial-sum scores equal their definitions',
      'For any scalar or scalar-anomaly partial-sum records, every continuous score (means, standard deviations, correlation, '
      'bias, error moments, multiplicative bias, MSE, BCMSE, RMSE, scatter index, anomaly correlation and so on) equals its formula applied to the '
      'means weighted by the number of pairs in each record, rounded half-up to seven decimals. '
      'A score that is undefined for the data (no pairs, zero or negative variance, missing inputs) is missing rather than an '
      'exception, NaN or infinity.',
      'all values (any real or missing) of the partial sums in 1-3 records, plus 17-60 records with symbolic first and last '
      'record, with and without aggregation',
      FIXED + 'degenerate variances, zero totals and missing values are not sampled.',
      [U + 'sl1l2_statistics.py', U + 'sal1l2_statistics.py', U + 'utils.py', U + 'met_stats.py'],
      [('partial sums divided by pooled total when aggregating', U + 'sl1l2_statistics.py'),
       ('anomaly correlation', U + 'sal1l2_statistics.py'), ('variance/stdev helpers', U + 'utils.py')],
      ['return value of each statistic function']),
    P('P03', 'Vector-wind scores equal their definitions',
      'For any vector partial-sum records, every wind score (mean winds, speeds and speed differences, vector RMS errors, '
      'vector-difference length, wind directions in degrees in [0,360), absolute and signed direction error, anomaly '
      'correlation) equals its formula applied to the pair-weighted mean winds, rounded half-up. '
      'Scores undefined for the data are missing.',
      'all wind components, squared sums and totals (reals or missing) in 1-2 records and 17-60 records with symbolic ends',
      FIXED + 'quadrant boundaries, calm winds and large totals are not sampled.',
      [U + 'vl1l2_statistics.py', U + 'vcnt_statistics.py', U + 'val1l2_statistics.py', U + 'met_stats.py'],
      [('vector partial sums', U + 'vl1l2_statistics.py'), ('vector continuous statistics', U + 'vcnt_statistics.py'),
       ('wind direction and speed', U + 'met_stats.py')],
      ['return value of each statistic function']),
    P('P04', 'Ensemble and ranked-probability scores equal their definitions',
      'For any ensemble continuous, ranked-probability or spread-skill records, every score (CRPS variants and skill scores, '
      'mean and RMS errors with and without observation error, spread variants and their ratios to the error, bias ratio, ignorance score, '
      'RPS and its decomposition and skill, binned spread-skill scores) equals its formula over the weighted means, rounded half-up. '
      'Scores undefined for the data are missing.',
      'all values (reals or missing) in 1-2 records and 17-60 records with symbolic ends, with and without aggregation',
      FIXED + 'zero climatological scores, negative variances and missing members are not sampled.',
      [U + 'ecnt_statistics.py', U + 'rps_statistics.py', U + 'ssvar_statistics.py'],
      [('ensemble continuous statistics', U + 'ecnt_statistics.py'), ('ranked probability score', U + 'rps_statistics.py'),
       ('spread-skill statistics', U + 'ssvar_statistics.py')],
      ['return value of each statistic function']),
    P('P05', 'Neighborhood and gradient scores equal their definitions',
      'For any neighborhood-continuous, neighborhood-contingency or gradient records, every score (fractions Brier score and '
      'the fractions skill scores, forecast and observed rates, S1 scores and gradient ratio, and the categorical scores of neighborhood '
      'counts) equals its formula over the pooled records, rounded half-up to seven decimals. '
      'Scores undefined for the data are missing.',
      'all values (reals or missing) in 1-3 records and 17-60 records with symbolic ends',
      FIXED + 'zero rates and zero gradients are not sampled.',
      [U + 'nbrcnt_statistics.py', U + 'nbrctc_statistics.py', U + 'grad_statistics.py'],
      [('neighborhood continuous', U + 'nbrcnt_statistics.py'), ('neighborhood categorical', U + 'nbrctc_statistics.py'),
       ('gradient statistics', U + 'grad_statistics.py')],
      ['return value of each statistic function']),
    P('P06', 'Probability-forecast scores equal their definitions',
      'For any n-by-2 probability tables, counts are pooled per probability bin over all records and empty bins are ignored; '
      'reliability, resolution, uncertainty, Brier score, Brier skill score, base rate, calibration, bin counts and the trapezoidal area under the '
      'ROC curve equal their formulas on the pooled table, rounded half-up to seven decimals. '
      'The Brier score always equals reliability minus resolution plus uncertainty, and undefined scores are missing.',
      'tables of 1-4 bins with symbolic bin probabilities and counts (possibly missing after the first record) in 1-3 records',
      FIXED + 'empty bins, equal probabilities and tables without events are not sampled.',
      [U + 'pstd_statistics.py'],
      [('pooled bin table', U + 'pstd_statistics.py:_calc_common_stats'), ('ROC construction', U + 'pstd_statistics.py:_calc_pct_roc')],
      ['return value of each statistic function']),
    P('P07', 'Multi-category skill and economic value equal their definitions',
      'For any multi-category contingency records the skill score against the expected-correct value is '
      '(diagonal - ec*N)/(N - ec*N) over counts pooled per category pair, whatever order the cells are listed in. '
      'For any contingency or probability records the economic cost/loss curve is returned for the ratios in ascending order (optionally with the '
      'base rate added), each value following the below/above-base-rate formula, together with hit rate, false-alarm rate, base '
      'rate, maximum value and total; where undefined, nothing is returned.',
      '2-4 categories, 1-3 records, all counts real or missing; symbolic cost/loss ratio in (0,1), symbolic probability threshold',
      FIXED + 'cell orderings, base-rate placement and degenerate tables are not sampled.',
      [U + 'mcts_statistics.py', U + 'eclv_statistics.py', U + 'ctc_statistics.py'],
      [('multi-category table assembly', U + 'mcts_statistics.py'), ('economic value', U + 'ctc_statistics.py:calculate_economic_value'),
       ('probability split at threshold', U + 'eclv_statistics.py')],
      ['return value of the statistic functions']),
    P('P08', 'Object count ratios of MODE records equal their definitions',
      'For any list of MODE objects flagged forecast/observed, simple/cluster and matched/unmatched (plain, 2-D or 3-D), '
      'every count ratio equals the number of objects in the numerator class divided by the number in the denominator class, '
      'and the object hits, misses, false alarms, CSI, POD-yes, FAR, frequency bias and F1 measures equal the contingency formulas over those counts, rounded half-up. '
      'Ratios over an empty class are missing.',
      'up to 2-3 objects (4 in the thorough tier), every combination of flags, every object dimension',
      FIXED + 'only a handful of ratios and object populations are sampled.',
      [U + 'mode_ratio_statistics.py', U + 'mode_2d_ratio_statistics.py', U + 'mode_3d_ratio_statistics.py', U + 'utils.py'],
      [('object class filters', U + 'mode_ratio_statistics.py'), ('2-D and 3-D variants', U + 'mode_3d_ratio_statistics.py'),
       ('row filters', U + 'utils.py:get_total_values')],
      ['return value of each ratio function']),
    P('P09', 'Area- and volume-weighted MODE ratios equal their definitions',
      'For any list of MODE objects, every area-weighted (2-D) or volume-weighted (3-D) ratio equals the summed size of the numerator class divided by the summed '
      'size of the denominator class, and the weighted CSI, POD-yes, FAR, frequency bias and related measures follow the same '
      'formulas over the summed sizes, rounded half-up. Ratios whose denominator has no size, or one of whose classes is empty, are missing.',
      'up to 2 objects (3 in the thorough tier), every combination of flags, every positive real size',
      FIXED + 'only a few ratios and object populations are sampled.',
      [U + 'mode_arearat_statistics.py', U + 'mode_2d_arearat_statistics.py', U + 'mode_3d_volrat_statistics.py', U + 'utils.py'],
      [('size-weighted class sums', U + 'mode_arearat_statistics.py'), ('volume renamed to area', U + 'mode_3d_volrat_statistics.py:rename_column')],
      ['return value of each ratio function']),
    P('P10', 'Statistics return a finite number or missing, and leave no trace',
      'For any records, including records with missing values and no records at all, every line-type statistic returns a finite number or "missing": it '
      'never raises and never returns NaN or infinity. Computing it never leaves Python warnings escalated to errors for the rest of the process.',
      'every statistic of the line types, one record (two in the thorough tier) of arbitrary reals or missing values, and empty tables',
      FIXED + 'degenerate records and process-wide side effects are not looked at.',
      [U + 'ctc_statistics.py', U + 'sl1l2_statistics.py', U + 'vl1l2_statistics.py', U + 'ecnt_statistics.py', U + 'nbrcnt_statistics.py',
       U + 'pstd_statistics.py', U + 'sal1l2_statistics.py', U + 'vcnt_statistics.py', U + 'val1l2_statistics.py', U + 'grad_statistics.py'],
      [('exception handling and warnings filters around each formula', U + '*_statistics.py')],
      ['return value or exception of each statistic', 'warnings filter after the call']),
    P('P11', 'Aggregated statistics use every record with its pair weight',
      'When the aggregation tool combines several records of one series point, each statistic it reports equals the statistic of the '
      'combined record: counts are summed, and means, rates and moments are averaged with each record weighted by its number of pairs '
      '(squares being averaged for RMSE and spread columns). No record is dropped, counted twice or left unweighted, for any statistic of the line types sl1l2, sal1l2, vl1l2, vcnt, '
      'val1l2, ecnt, rps, ssvar, nbr_cnt, nbr_ctc, grad and ctc.',
      '2 records (3 in the thorough tier) with arbitrary real values and positive totals, for every statistic of the listed line types',
      FIXED + 'the weights are equal or nearly so in the sampled data, which hides unweighted columns.',
      ['metcalcpy/agg_stat.py', U + 'utils.py', U + 'ecnt_statistics.py', U + 'sl1l2_statistics.py'],
      [('per-line-type preparation of columns', 'metcalcpy/agg_stat.py:_prepare_*'), ('statistic dispatch', U + 'utils.py:calculate_statistic')],
      ['stat_value column written by AggStat.calculate_stats_and_ci']),
    P('P12', 'Each output point is computed from exactly the records that belong to it',
      'Every row the aggregation tool writes is labelled with one combination of series values, independent-axis value, variable and statistic; its value '
      'is computed from exactly the input records matching that label (for a group, those matching any member; for dates and numeric axis values, those equal to it), '
      'and nstats counts them. Every requested combination appears exactly once, and a combination without records is reported as missing; contingency records of one combination with different expected-correct values (ec_value) are refused.',
      'up to 3 records, each with every combination of series value, axis value, variable and statistic name (decided by forking), on both axes, with groups, '
      'text, date and numeric axis values',
      FIXED + 'the data always contain every combination in a regular order.',
      ['metcalcpy/agg_stat.py', U + 'utils.py'],
      [('record filter per point', 'metcalcpy/agg_stat.py:calculate_value_and_ci'), ('output frame and permutations', 'metcalcpy/agg_stat.py:_init_out_frame')],
      ['rows written by AggStat.calculate_stats_and_ci']),
    P('P13', 'Derived curves combine the statistics of their two component series',
      'A derived curve point is the difference, ratio, skill score, single value or significance of the component statistics at the same point, in the '
      'order the series are named, rounded as documented; it is missing when a component is missing or the operation undefined. '
      'The tool refuses derived curves over data in which a case is repeated within a series.',
      'all real or missing component values and perfect scores; up to 2 records per series through the tool',
      FIXED + 'missing components, zero denominators and repeated cases are not sampled.',
      ['metcalcpy/agg_stat.py', U + 'utils.py'],
      [('derived value', U + 'utils.py:calc_derived_curve_value'), ('perfect score', U + 'utils.py:perfect_score_adjustment'),
       ('derived points', 'metcalcpy/agg_stat.py:_calc_stats_derived')],
      ['return values and the derived rows written by AggStat']),
    P('P14', 'Pooling of repeated cases keeps every case and weights it correctly',
      'Pooling the records of a group per case (or over leads) yields one record per case and variable whose counts are the sums, whose means are weighted '
      'by the number of pairs, and whose squared quantities are averaged as squares; cases with no records are skipped, ungrouped records are kept unchanged, and no '
      'other variable or group is affected. Pooling never changes the warning behaviour of the process.',
      '2-3 records of one or two groups and variables with arbitrary real values, for every line type that can be pooled, per case and over lead times',
      FIXED + 'only one line type and one group are exercised.',
      [U + 'utils.py'],
      [('pooling per case', U + 'utils.py:aggregate_field_values'), ('per-line-type sums', U + 'utils.py:calc_series_sums')],
      ['returned frame']),
    P('P15', 'Summary statistics hold record by record and by group',
      'The summary-statistics tool writes one row for each selected input record carrying that record\'s own statistic (the single-record formula), with '
      'its labels unchanged, and for series groups one row per case computed from the pooled records of the group. No record of a selected point is lost or duplicated.',
      '1-3 records with arbitrary real values and symbolic structure, for every statistic of the supported line types',
      FIXED + 'one line type is exercised.',
      ['metcalcpy/sum_stat.py', U + 'utils.py'],
      [('per-record statistic', 'metcalcpy/sum_stat.py'), ('pooling of groups', U + 'utils.py:aggregate_field_values')],
      ['rows written by SumStat.calculate_stats']),
    P('P16', 'Event equalization keeps exactly the cases present in every series',
      'After event equalization, a record is kept if and only if its case (valid time, lead and fixed-variable values, per statistic) occurs for every compared series value on '
      'either axis, and for the equalization against previous results, if it occurs there. Kept records are unchanged and appear once, '
      'repeated cases are left out (or kept, when multiple events are allowed), and records of series, fixed values or axis values that were not requested are not used.',
      '2-4 records, each with every combination of series, time, lead, fixed value and statistic (decided by forking), for the function, both axes and the three tools',
      FIXED + 'the recorded data are nearly complete, so few cases are removed and none for unusual reasons.',
      ['metcalcpy/event_equalize.py', 'metcalcpy/event_equalize_against_values.py', U + 'utils.py', 'metcalcpy/agg_stat_event_equalize.py', 'metcalcpy/agg_stat_eqz.py'],
      [('case identity and counting', 'metcalcpy/event_equalize.py:event_equalize'), ('per-axis equalization', U + 'utils.py:perform_event_equalization'),
       ('against earlier cases', 'metcalcpy/event_equalize_against_values.py'), ('tools', 'metcalcpy/agg_stat_eqz.py')],
      ['returned frame and files written by the tools']),
    P('P17', 'Bootstrap intervals are the percentiles of statistics of resampled cases',
      'The bootstrap applies the statistic to as many resamples as requested, each as long as the sample and made of whole records drawn with replacement (in circular blocks of the '
      'requested length), and reports the statistic of the original sample with the alpha/2 and 1-alpha/2 percentiles (or the pivotal interval) of the resampled statistics '
      'for the requested alpha; missing resampled values are left out. The aggregation tool resamples the component series of a derived curve together, '
      'equal random seeds give equal results, and the significance of a difference (DIFF_SIG) is the share of resampled differences, centred on their mean, that are not larger than the difference, '
      'negative when the first series is further from the perfect score.',
      'every outcome of the random draws for 1-4 records and 1-4 resamples, all block lengths and batch sizes in that range; any real or missing resampled statistic and any alpha in (0,1)',
      FIXED + 'results of random sampling are compared to loose limits or not at all.',
      ['metcalcpy/bootstrap.py', 'metcalcpy/agg_stat.py'],
      [('resampling', 'metcalcpy/bootstrap.py:_bootstrap_distribution_cbb'), ('interval', 'metcalcpy/bootstrap.py:_get_confidence_interval_and_value'),
       ('use by the tool', 'metcalcpy/agg_stat.py:_get_bootstrapped_stats')],
      ['arguments of the statistic and fields of the returned result', 'stat_value, stat_btcl, stat_btcu written by AggStat']),
    P('P18', 'MODE bootstrap results belong to the labelled point and its cases',
      'Every row the MODE bootstrap tool writes carries the object ratio computed from exactly the objects of its series, axis value and variable, with their number; every requested '
      'combination appears once and is missing when it has no objects. Intervals come from resampling the cases of that axis value, a case counting as often as it was drawn, and event equalization '
      'removes objects of cases that are not in the reference. Equal random seeds give equal results.',
      '2-4 objects with every combination of series, time, lead, variable and flags (forked), arbitrary areas, every outcome of up to 4-6 draws',
      FIXED + 'one statistic and one series are exercised.',
      ['metcalcpy/agg_stat_bootstrap.py', 'metcalcpy/bootstrap.py', U + 'mode_ratio_statistics.py', U + 'mode_arearat_statistics.py'],
      [('point filter and cases', 'metcalcpy/agg_stat_bootstrap.py:_proceed_with_axis'), ('resampled statistic', 'metcalcpy/agg_stat_bootstrap.py:_calc_stats')],
      ['rows written by AggStatBootstrap.calculate_values']),
    P('P19', 'Economic value curves belong to the labelled records and cost/loss ratios',
      'The economic-value tool writes, for every requested series and threshold, one row per cost/loss ratio in steps of the requested width (plus the base rate when requested), carrying '
      'the economic value of the contingency counts summed over exactly the records of that point. The value is the relative reduction in expense '
      'against the better of always and never protecting, and is missing where that is undefined; intervals come from resampling the records of the point, and equal random seeds give equal results.',
      '1-3 records of CTC or PCT counts with every combination of labels (forked), any non-negative counts, several step widths and every outcome of the draws',
      FIXED + 'one data set without undefined values is compared to recorded output.',
      ['metcalcpy/agg_eclv.py', U + 'eclv_statistics.py', 'metcalcpy/bootstrap.py'],
      [('economic value', U + 'eclv_statistics.py:calculate_eclv'), ('points and intervals', 'metcalcpy/agg_eclv.py:_proceed_with_axis')],
      ['rows written by AggEclv.calculate_stats_and_ci']),
    P('P20', 'Scorecard values compare the two series on the requested cases',
      'The scorecard tool writes, for every requested point and pair of series, the difference of the means of the records of exactly that point, the single-series mean, or the significance '
      'of the difference: the sign tells which series is closer to the perfect score of that statistic and the size comes from the paired t test (NCAR) or the classes of the 95/99/99.9% intervals (EMC). '
      'Undefined significances are missing, never an exception.',
      '1-4 cases with every combination of labels (forked), any real values for both series, statistics with perfect score 0, 1 or none',
      FIXED + 'only recorded outputs are compared and no ties or single cases occur.',
      ['metcalcpy/scorecard.py', U + 'utils.py', U + 'tost_paired.py'],
      [('point filter and derived values', 'metcalcpy/scorecard.py:Scorecard'), ('significance', 'metcalcpy/scorecard.py:_calculate_diff_sig_ncar')],
      ['rows written by Scorecard.calculate_scorecard_data'], note='the t distribution is uninterpreted in the symbolic run'),
    P('P21', 'Equivalence testing decides by the paired one-sided t tests of the cases',
      'The paired equivalence test returns the mean difference, its confidence intervals, equivalence bounds, t and p values of the two one-sided tests as defined, and an outcome that '
      'agrees with those p-values and alpha for every input, including p-values of exactly 0 or alpha. A test without spread of the differences is reported as undefined and never stops the tool; fewer than two cases, standard deviations not above zero, correlations beyond 1 and alpha below 0 or not below 1 give no result. '
      'An equivalence-testing curve carries the difference and interval of the test applied to the case values of exactly its two series.',
      'any means, standard deviations, correlations and alpha (some as multiples of each other), 4-16 cases; curves of 1-4 cases with forked labels',
      FIXED + 'one data set with spread is compared to recorded output.',
      [U + 'utils.py', U + 'tost_paired.py', 'metcalcpy/agg_stat.py'],
      [('test', U + 'tost_paired.py:tost_paired'), ('derived value', U + 'utils.py:calc_derived_curve_value'), ('curve of the tool', 'metcalcpy/agg_stat.py:_proceed_with_axis')],
      ['returned dictionary of tost_paired', 'stat_value, stat_btcl and stat_btcu of ETB rows'],
      note='the t distribution is an uninterpreted odd increasing function in the symbolic run'),
    P('P22', 'Standard errors of series follow their spread, length and lag-1 correlation',
      'The lag-1 coefficient is the slope of the least-squares line from each value to its successor. Standard errors of means, sums and medians are the textbook ones, inflated by that coefficient where requested, '
      'with a flag that tells a coefficient outside [-1, 1]. Missing values are left out, and series without spread give 0, never an exception.',
      'series of 0-5 values, each any real number or missing, with and without the lower bound on the coefficient',
      FIXED + 'only smooth series are compared.',
      [U + 'utils.py'],
      [('coefficient', U + 'utils.py:autocor_coef'), ('standard errors', U + 'utils.py:compute_std_err_from_mean')],
      ['returned values and flags']),
    P('P23', 'Autocorrelation, runs test and revision statistics follow their definitions',
      'Autocovariances and autocorrelations are those of the available pairs at each lag, the runs test counts runs above and below the threshold of the available values and derives its z and p values from them, '
      'and revision statistics summarise each series from exactly its own non-missing revisions. Series without spread or values give missing results, never an exception.',
      'series of 1-6 values, each any real number or missing; thresholds, alternatives and lags forked',
      FIXED + 'one recorded series is compared.',
      [U + 'utils.py', U + 'correlation.py', U + 'wald_wolfowitz_runs_test.py'],
      [('autocorrelation', U + 'correlation.py:acf'), ('runs test', U + 'wald_wolfowitz_runs_test.py:runs_test'), ('revision statistics', U + 'utils.py:calculate_mtd_revision_stats')],
      ['returned values']),
    P('P24', 'Vertical interpolation and heights of pressure levels follow their definitions',
      'Interpolating a field onto a vertical level returns, at each point, the value linear between the two surfaces enclosing the level, the surface value where they coincide, and the nearest value outside the surfaces, '
      'after converting the surfaces to the units of the level. Heights of pressure levels are the hypsometric integral of the layers above the surface pressure, missing below the surface.',
      'any fields and strictly increasing surfaces of 1-4 levels and 1-2 points, fields possibly missing and surfaces missing below the ground; any surface pressure and geopotential over concrete pressure levels',
      FIXED + 'no test covers the interpolation.',
      ['metcalcpy/vertical_interp.py'],
      [('interpolation', 'metcalcpy/vertical_interp.py:vertical_interp'), ('heights', 'metcalcpy/vertical_interp.py:height_from_pressure')],
      ['returned field and its coordinates', 'returned heights'],
      note='metpy moisture functions are uninterpreted in the symbolic run'),
    P('P25', 'Forecast difficulty and piecewise linear envelopes follow their definitions',
      'A piecewise linear envelope interpolates between its knots, takes the left and right values outside, and refuses unsorted or mismatched knots. The difficulty index of each point is the mean of its relative spread (over '
      'the reference or the largest on the grid) and the nearness of the share of members below the threshold to one half, scaled by the envelope at the ensemble mean. Standard deviations that are not positive are refused.',
      'any knots and values (2-4 knots); any positive means, any spreads and member values on grids of 1-4 points',
      FIXED + 'no test covers the index.',
      ['metcalcpy/calc_difficulty_index.py', 'metcalcpy/piecewise_linear.py'],
      [('index', 'metcalcpy/calc_difficulty_index.py:forecast_difficulty'), ('envelope', 'metcalcpy/piecewise_linear.py:PiecewiseLinear')],
      ['returned index', 'values of the envelope', 'refused inputs']),
    P('P26', 'Longitude conversions and directional means keep each value with its place',
      'Converting or flipping longitudes gives equivalent longitudes within the requested range, in ascending order where documented, moves every data value together with its longitude, and leaves the input unchanged. '
      'Zonal means average every longitude, and meridional means average exactly the latitudes requested, weighted by the cosine of latitude where documented, ignoring missing values.',
      'any longitudes (1-5 of them), any data values or missing; concrete latitudes, ranges forked',
      FIXED + 'one regular grid is compared.',
      [U + 'utils.py', 'metcalcpy/pre_processing/directional_means.py', 'metcalcpy/contributed/spacetime/spacetime_utils.py', 'metcalcpy/contributed/tropical_diagnostics/utils.py'],
      [('conversion', U + 'utils.py:convert_lons_indices'), ('flip', 'metcalcpy/contributed/spacetime/spacetime_utils.py:lonFlip'), ('means', 'metcalcpy/pre_processing/directional_means.py:meridional_mean')],
      ['returned longitudes, indices and data']),
    P('P27', 'ROC points come one per threshold, in the order of the thresholds',
      'The ROC table of contingency records has one row per distinct threshold with the probability of detection and of false detection of the pooled records of that threshold. '
      'Rows are ordered by the value of the threshold and then by its comparison (<, <=, ==, >=, >), ascending or descending as asked; sorting records '
      'by threshold keeps every record and uses the same order.',
      'any counts; 1-4 records whose thresholds are forked over numeric, signed, decimal and text thresholds with each comparison',
      FIXED + 'one table is compared.',
      [U + 'ctc_statistics.py'],
      [('ROC', U + 'ctc_statistics.py:calculate_ctc_roc'), ('sorting', U + 'ctc_statistics.py:sort_by_thresh')],
      ['returned tables']),
    P('P28', 'Winds of cyclone grids are the radial and tangential projections',
      'On every point of a range-azimuth grid around a cyclone the radial wind is u cos(a) + v sin(a) and the tangential wind is -u sin(a) + v cos(a), where a is the azimuth of the point plus 90 degrees, '
      'so wind speed is kept, and the other fields and coordinates are unchanged.',
      'any winds; grids of 1-4 azimuths, 1-2 ranges, levels and track points',
      FIXED + 'no test covers the projection.',
      ['metcalcpy/process_tcrmw.py'],
      [('projection', 'metcalcpy/process_tcrmw.py:compute_wind_components')],
      ['returned dataset'],
      note='equality is claimed to 1e-5 of |u| + |v| because sine and cosine of the concrete azimuths are floating point'),
    P('P29', 'Smoothing, symmetric parts and coherence of spectra follow their definitions',
      'The 1-2-1 filter keeps missing values missing and gives every other value the weighted mean of itself and its neighbours, the weight of a missing or absent neighbour staying with the value. '
      'Symmetric and antisymmetric parts add up to the field and are even and odd about the equator; coherence squared and phase follow from the cross-spectra, and tapering multiplies by the cosine bell only at the ends.',
      'any values or missing, 1-5 points; 1-4 latitudes; any spectra',
      FIXED + 'no test covers these functions.',
      ['metcalcpy/contributed/spacetime/spacetime.py'],
      [('smoothing', 'metcalcpy/contributed/spacetime/spacetime.py:smooth121'), ('parts', 'metcalcpy/contributed/spacetime/spacetime.py:get_symmasymm'), ('coherence', 'metcalcpy/contributed/spacetime/spacetime.py:mjo_cross_coh2pha')],
      ['returned arrays'],
      note='the Fourier transforms of the module are not covered'),
    P('P30', 'MJO indices are the least-squares projections of the anomalies on the patterns',
      'Removing the previous 120 days subtracts from each value the mean of itself and of the values of the 120 days before, ignoring missing values. RMM1 and RMM2 are the least-squares coefficients of the normalised anomalies of the '
      'three fields on the two patterns, divided by the scale of the components, and daily patterns are those of the day of the year of each field. Fields on another grid than the patterns are refused.',
      'any fields of 2-5 times (steps of 1-200 days) and 1-3 longitudes; concrete patterns, any calendar days listed',
      FIXED + 'no test covers the indices.',
      ['metcalcpy/contributed/rmm_omi/compute_mjo_indices.py'],
      [('RMM', 'metcalcpy/contributed/rmm_omi/compute_mjo_indices.py:rmm'), ('projection', 'metcalcpy/contributed/rmm_omi/compute_mjo_indices.py:regress_3dim_data_onto_eofs'),
       ('anomalies', 'metcalcpy/contributed/rmm_omi/compute_mjo_indices.py:rem_120day_mean')],
      ['returned indices and anomalies', 'refused grids'],
      note='numpy.linalg.lstsq is replaced by the normal equations in the symbolic run; the spectral filter of OMI is not covered'),
    P('P31', 'Blocked longitudes and their groups follow the definition all around the globe',
      'A longitude is blocked on a day when, for some of the latitude shifts, the mean height north of the shifted central latitude exceeds the mean height south of it. Groups join blocked longitudes separated by at most half the minimum size, '
      'on the whole circle, and are kept with their gaps filled when they span the minimum size. Central latitudes are those of largest weighted variability, smoothed along the circle, and absent files give missing fields.',
      'any heights on 1-2 days and 1-2 longitudes; any of the listed patterns of blocked longitudes at several positions around the circle; any heights at 1-2 of 360 longitudes for the central latitude',
      FIXED + 'no test covers blocking.',
      ['metcalcpy/contributed/blocking_weather_regime/Blocking.py', 'metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py'],
      [('blocked', 'metcalcpy/contributed/blocking_weather_regime/Blocking.py:BlockingCalculation.run_mod_blocking1d'), ('groups', 'metcalcpy/contributed/blocking_weather_regime/Blocking.py:BlockingCalculation.run_Calc_GIBL'),
       ('central latitude', 'metcalcpy/contributed/blocking_weather_regime/Blocking.py:BlockingCalculation.run_CBL'), ('reading', 'metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py:read_nc_met')],
      ['returned arrays'],
      note='netCDF reading is a stand-in; run_Calc_Blocks is not covered'),
    P('P32', 'Weather regimes keep label, pattern and frequency of each cluster together',
      'Regimes are numbered from the most to the least frequent cluster, and the label of each day, the pattern and the frequency of a regime belong to the same cluster, also after forecast regimes are reordered by a given order or by their '
      'correlation with the observed ones. Regime frequencies count the days of each regime in each window, the elbow is the number of clusters farthest below the line between the ends, and heights are the patterns weighted by their coefficients.',
      'any cluster labels (2-4 clusters, 3-4 days), centres, correlations and inertias; every order of 2-3 regimes',
      FIXED + 'no test covers weather regimes.',
      ['metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py', 'metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py'],
      [('clusters', 'metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py:WeatherRegimeCalculation.run_K_means'), ('frequency', 'metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py:WeatherRegimeCalculation.compute_wr_freq'),
       ('reordering', 'metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py:reorder_fcst_regimes')],
      ['returned labels, patterns and frequencies'],
      note='K-means and the correlation of patterns are stand-ins with symbolic results'),
    P('P33', 'Zonal waves follow the Fourier transform along the circle of longitudes',
      'Wave coefficients are the discrete Fourier transform of a field along longitude; amplitude and phase are those of each coefficient and keep the other dimensions and coordinates. '
      'The contribution of each wave along the circle is its own harmonic, the contributions of all waves add up to the field, and the covariance of two fields in a wave is the product of their harmonics averaged along the circle.',
      'any values up to 1000 in magnitude on 2-8 longitudes and 1-2 other points; all and selected wavenumbers',
      FIXED + 'no test covers the waves.',
      ['metcalcpy/pre_processing/waves.py'],
      [('coefficients', 'metcalcpy/pre_processing/waves.py:zonal_wave_coeffs'), ('contributions', 'metcalcpy/pre_processing/waves.py:zonal_wave_contributions')],
      ['returned arrays'],
      note='scipy.fft is replaced by its definition in the symbolic run; the xrft variant and the shortest wave of an even number of longitudes in amplitudes and covariances are not covered'),
    P('P34', 'Cross-spectra in wavenumber and frequency follow their definition',
      'Power, co- and quadrature spectra of two fields are the latitude means of the products of their Fourier coefficients in time and longitude, each at its own frequency and wavenumber. The averaged cross-spectrum removes the linear trend, '
      'tapers each segment, uses every segment that fits into the series, smooths 1-2-1 in frequency with the time mean missing, and labels frequencies in cycles per time step and wavenumbers symmetrically about 0.',
      'any values up to 100 in magnitude; 2-12 times, 1-2 latitudes, 1-6 longitudes, segments of 2-8 times, odd and even sizes',
      FIXED + 'no test covers the spectra.',
      ['metcalcpy/contributed/spacetime/spacetime.py'],
      [('segment', 'metcalcpy/contributed/spacetime/spacetime.py:mjo_cross_segment_realfft'), ('average', 'metcalcpy/contributed/spacetime/spacetime.py:mjo_cross')],
      ['returned spectra, frequencies and wavenumbers'],
      note='numpy.fft and scipy.signal.detrend are replaced by their definitions in the symbolic run; the wave filter is not covered'),
    P('P35', 'Dispersion curves of equatorial waves satisfy the dispersion relation',
      'For every equivalent depth, latitude and set of zonal wavenumbers, each frequency of a Kelvin, mixed Rossby-gravity, Rossby or inertio-gravity curve (cycles per day) satisfies the shallow-water dispersion relation of its mode at its own wavenumber and is positive. '
      'Rossby curves follow the slow root and inertio-gravity curves the fast one; Kelvin and eastward curves exist for positive wavenumbers only, the others for negative ones only, and are missing elsewhere. The frame of all curves has one column per mode and one row per wavenumber.',
      'any equivalent depth with wave speed 1-80 m/s; latitudes from 0 to 15 degrees, 2-5 wavenumbers up to 12, meridional modes 1-3, one to three depths',
      FIXED + 'no test covers the curves.',
      ['metcalcpy/contributed/spacetime/matsuno_plot.py'],
      [('mode', 'metcalcpy/contributed/spacetime/matsuno_plot.py:er_n'), ('frame', 'metcalcpy/contributed/spacetime/matsuno_plot.py:matsuno_dataframe')],
      ['returned frames'],
      note='scipy.optimize.fsolve is taken to return the root nearest to its starting value in the symbolic run; the figures are not covered'),
    P('P36', 'Columns, counts and combinations of record values are complete and in order',
      'Asking a record table for a column by name returns its values in record order (on request without the missing ones) and their sum, which is missing when no value is present or, if missing values are not to be skipped, when any is missing; a column the table does not have is missing. '
      'Filtering or counting records by column values selects exactly those equal to every filter value, in order. '
      'The combinations of several lists of values hold every choice of one value per list exactly once, the first list varying fastest (create_permutations_mv, which leaves out empty lists of a dictionary) or slowest (create_permutations), and the common values of two lists are those of the first that the second has.',
      'up to 3 records, any values, any of them missing; any whole numbers as filter columns; up to 4 lists of up to 3 values',
      FIXED + 'the tests use one table and one set of lists.',
      [U + 'utils.py'],
      [('columns', U + 'utils.py:sum_column_data_by_name'), ('filters', U + 'utils.py:column_data_by_name_value'), ('combinations', U + 'utils.py:create_permutations_mv')],
      ['returned values']),
]
