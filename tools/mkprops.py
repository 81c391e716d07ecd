"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
P = []
IND = 'tti/indicators/'


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b) for a, b in state], observe_at=list(observe))))


SIM = 'tti/utils/trading_simulation.py'
BASE = IND + '_technical_indicator.py'

prop('C01', 'Simulation ledger: every trading day obeys the documented accounting',
     'On the first day nothing is opened and exposure, portfolio value, earnings and balance are zero; on every later '
     'day each open position that is in profit at that day\'s price (a long bought below it, a short sold above it) is '
     'closed once, at that price, before the day\'s signal may open at most one new one-share position (a buy opens a '
     'long, a sell opens a short). Exposure always equals the sum over open positions of the entry price (longs) or of '
     'the short factor times the entry price (shorts), earnings the accumulated entry/exit differences of the closed '
     'ones, portfolio value the day\'s price times longs minus shorts still open, and balance earnings plus portfolio '
     'value.',
     ['inputs', 'histories', 'configurations'],
     'For every price path, every sequence of buy/hold/sell signals, every short factor >= 1 and every exposure cap '
     '(or none), every day of the resulting table.',
     'The tests run one price file with a handful of indicators and one factor and compare stored output rounded; the '
     'order of closing/opening, ties between entry price and current price and simultaneous closings are not sampled.',
     [SIM, BASE], [('close profitable positions', SIM + ':_closeOpenPositions'),
                   ('open and book a day', SIM + ':runSimulationRound'),
                   ('portfolio value', SIM + ':_calculatePortfolioValue')],
     [('portfolio', 'one slot per day: position kind, open/closed, booked exposure'),
      ('simulation table', 'signal, action, price, exposure, portfolio value, earnings, balance per day')],
     ['TradingSimulation.runSimulationRound', 'TradingSimulation.closeSimulation', 'getTiSimulation'])

prop('C02', 'Simulation exposure cap is never exceeded and is the only reason to refuse',
     'With a maximum exposure set, no day of a simulation ends with exposure above it. After the first day, a buy (or '
     'sell) signal opens a long (or short) position exactly when the exposure left after that day\'s closings plus the '
     'exposure of the new position does not exceed the maximum; without a maximum every such signal opens a position, '
     'and a hold signal never opens one.',
     ['inputs', 'histories', 'configurations'],
     'For every price path, signal sequence, cap and short factor; including equality with the cap.',
     'Tests use a few fixed caps on one price path; equality with the cap and closings that free room on the same day '
     'are not hit.',
     [SIM], [('cap comparison before opening', SIM + ':runSimulationRound')],
     [('exposure', 'running exposure of open positions')], ['open_trading_action', 'exposure'])

prop('C03', 'Simulation statistics agree with the day-by-day table',
     'The summary returned by a simulation reports exactly the number of days executed, the number of buy and sell '
     'signals (the first day\'s included), the numbers of those for which no position was opened (always so on the first '
     'day), the numbers of long and short positions still '
     'open at the end, and the last day\'s price, exposure, portfolio value, earnings and balance rounded to two '
     'decimals.',
     ['inputs', 'histories', 'configurations'],
     'For every price path, signal sequence, cap and factor, and for simulations closed after any number of rounds.',
     'Tests compare statistics for one data file; the open-position counts and ignored-signal counts are not related '
     'to the table for arbitrary histories.',
     [SIM], [('statistics', SIM + ':_calculateSimulationStatistics'), ('end of simulation', SIM + ':closeSimulation')],
     [('statistics', 'summary dictionary')], ['TradingSimulation.closeSimulation', 'getTiSimulation'])

prop('C04', 'Simulation replays each day\'s own signal and leaves the indicator unchanged',
     'The signal of each simulated day is the one the indicator gives when its input and its values are cut off after '
     'that many rows, the price used is that day\'s supplied close price, and the table has one row per input date in date order. '
     'After the simulation the indicator\'s values, latest signal and value look-ups are exactly those from before.',
     ['inputs', 'histories', 'configurations'],
     'For every indicator, price data and signal history; every simulated day.',
     'Tests check a few simulations as a whole; they do not relate each day to the truncated indicator nor look at the '
     'indicator after the run.',
     [BASE, SIM], [('per-round truncation and restore', BASE + ':getTiSimulation')],
     [('working data', 'input and indicator data restricted to the rounds seen so far')], ['getTiSimulation'])

prop('C05', 'Result does not depend on row order, column order, extra columns or letter case',
     'Reordering the rows of the input, reordering its columns, adding unrelated columns, or changing the letter case '
     'of column names changes neither the indicator values, nor the trading signal, nor value look-ups, nor the '
     'simulation (dates distinct, column names distinct but for letter case).',
     ['inputs', 'configurations'],
     'For every indicator, every input data, every row permutation / column permutation / extra column / case change.',
     'Tests use one column order and one shuffled file; per-indicator dependence on column order is not exercised.',
     ['tti/utils/data_validation.py', BASE], [('normalisation of the input frame', 'tti/utils/data_validation.py:validateInputData')],
     [], ['getTiData', 'getTiSignal', 'getTiValue', 'getTiSimulation'])

prop('C06', 'Missing values are filled forward, then backward, and only when requested',
     'With filling enabled every indicator behaves exactly as on input in which each missing value was replaced, column '
     'by column, by the latest earlier known value in date order, or by the earliest later one when there is none '
     'before; known values are never altered. With filling disabled the missing values reach the calculation unchanged.',
     ['inputs', 'configurations'],
     'For every pattern of missing cells, all values and row orders, both filling modes.',
     'Tests use one file with a couple of fixed holes.',
     ['tti/utils/data_preprocessing.py', 'tti/utils/data_validation.py'],
     [('fill', 'tti/utils/data_preprocessing.py:fillMissingValues'), ('switch', 'tti/utils/data_validation.py:validateInputData')],
     [], ['getTiData', 'fillMissingValues'])

prop('C07', 'Input data are accepted exactly when usable, else the documented error',
     'Constructing an indicator succeeds on input only if it is a data frame with a date index, at least one row and all '
     'required columns present (ignoring letter case) and numeric, and then never fails because of extra columns (of '
     'any name or content), row order or values. Dates are distinct and no two required columns differ only in case. Otherwise it fails before calculating anything with the documented kind of error: wrong-type '
     'parameter for a non-frame, type error for a non-date index, value error for an empty frame or a missing or '
     'non-numeric required column.',
     ['inputs', 'configurations'],
     'For every indicator, and every combination of index kind, emptiness, missing/ non-numeric / extra columns.',
     'Tests try a few hand-written bad inputs per indicator.',
     ['tti/utils/data_validation.py', 'tti/indicators/properties/indicators_properties.py'],
     [('validation', 'tti/utils/data_validation.py:validateInputData'),
      ('required columns', 'tti/indicators/properties/indicators_properties.py')], [], ['constructors of all indicators'])

prop('C08', 'Indicator parameters are accepted exactly in their documented ranges',
     'Every constructor parameter accepts exactly the values of its documented type and range (periods are whole numbers '
     'of at least the documented minimum and in the documented relation to each other, shifts/targets/deviations are '
     'positive numbers, choices are from the documented list, fill flag is a boolean). A wrong type raises the '
     'wrong-type error and a wrong value the wrong-value error, whatever the data.',
     ['inputs', 'configurations'],
     'For every parameter of every indicator and every integer / real value (symbolic, unbounded) and every other type.',
     'Tests try one or two bad values per parameter; the boundaries are not pinned down.',
     [IND + '*.py'], [('argument checks', IND + '*.py:__init__')], [], ['constructors of all indicators'])

prop('C09', 'Enough data gives one row of values per date; too little is refused',
     'An indicator can be constructed exactly when the input has at least its documented minimum number of rows for the '
     'given parameters, and otherwise raises the not-enough-input-data error. When constructed, its values have exactly '
     'the dates of the input in ascending order, one row each (the detrended price, centred by definition, has no row for '
     'the dates its window does not reach), and exactly the documented columns in order.',
     ['inputs', 'configurations'],
     'For every indicator, admissible parameter values and row counts around the threshold, every data values.',
     'Tests check a single row count near the threshold per indicator.',
     [IND + '*.py'], [('minimum data check', IND + '*.py:_calculateTi')], [], ['getTiData'])

prop('C10', 'No look-ahead: values of past dates never change when later data arrive',
     'For every indicator except those defined on the whole period or on centred windows (Fibonacci retracement and '
     'detrended price), the value reported for a date is the same whether or not the input contains later dates.',
     ['inputs', 'histories'],
     'For every indicator, input data, cut-off date and continuation.',
     'Tests never compare a prefix with a longer series.',
     [IND + '*.py'], [('causal formulas', IND + '*.py:_calculateTi')], [], ['getTiData'])

prop('C11', 'Moving averages, bands and price averages equal their textbook definitions',
     'Simple, exponential, time-series, triangular, variable and Wilder averages, double/triple exponential averages, '
     'median/typical/weighted prices, Bollinger, envelope, price-channel and projection bands, Fibonacci levels, '
     'Ichimoku lines and parabolic SAR equal, to the four decimals shown, their published definitions on every date, '
     'and are missing exactly where the definition has no value yet. Where published variants differ, the library\'s '
     'documented convention counts.',
     ['inputs', 'configurations'],
     'For every positive price data (including flat and equal prices) and every admissible parameter value, every date.',
     'Tests compare a single stored data file with default parameters (plus a tolerance), so special cases and '
     'parameters are not covered.',
     [IND + f for f in ('_moving_average.py', '_wilders_smoothing.py', '_double_exponential_moving_average.py',
                        '_triple_exponential_moving_average.py', '_median_price.py', '_typical_price.py',
                        '_weighted_close.py', '_bollinger_bands.py', '_envelopes.py', '_price_channel.py',
                        '_projection_bands.py', '_fibonacci_retracement.py', '_ichimoku_cloud.py', '_parabolic_sar.py')],
     [('calculation', IND + '*.py:_calculateTi')], [], ['getTiData'])

prop('C12', 'Momentum indicators and oscillators equal their textbook definitions',
     'RSI, relative momentum, intraday momentum, Chande momentum, CCI, stochastic and stochastic momentum, Williams %R, '
     'ultimate oscillator, momentum, price rate of change, price oscillator, MACD, Qstick, detrended price, mass index, '
     'relative volatility, vertical-horizontal filter, range indicator, projection oscillator and swing index equal, to '
     'the decimals shown, their published definitions (in the library\'s documented convention where variants differ) on '
     'every date where the definition has a value.',
     ['inputs', 'configurations'],
     'For every positive price data and every admissible parameter value, every date; flat windows where the definition '
     'divides by zero are covered as the documented special value.',
     'Tests compare one stored data file with default parameters.',
     [IND + f for f in ('_relative_strength_index.py', '_relative_momentum_index.py', '_intraday_momentum_index.py',
                        '_chande_momentum_oscillator.py', '_commodity_channel_index.py', '_stochastic_oscillator.py',
                        '_stochastic_momentum_index.py', '_williams_r.py', '_ultimate_oscillator.py', '_momentum.py',
                        '_price_rate_of_change.py', '_price_oscillator.py',
                        '_moving_average_convergence_divergence.py', '_qstick.py', '_detrended_price_oscillator.py',
                        '_mass_index.py', '_relative_volatility_index.py', '_vertical_horizontal_filter.py',
                        '_range_indicator.py', '_projection_oscillator.py', '_swing_index.py')],
     [('calculation', IND + '*.py:_calculateTi')], [], ['getTiData'])

prop('C13', 'Volume indicators equal their textbook definitions',
     'Accumulation/distribution line, Chaikin money flow and oscillator, on-balance volume, positive and negative volume '
     'index, price and volume trend, ease of movement, market facilitation index, Klinger oscillator, volume oscillator, '
     'volume rate of change and Williams accumulation/distribution equal, to the decimals shown, their published '
     'definitions (in the library\'s documented convention where variants differ) on every date.',
     ['inputs', 'configurations'],
     'For every positive price and volume data and every admissible parameter value, every date.',
     'Tests compare one stored data file with default parameters.',
     [IND + f for f in ('_accumulation_distribution_line.py', '_chaikin_money_flow.py', '_chaikin_oscillator.py',
                        '_on_balance_volume.py', '_positive_volume_index.py', '_negative_volume_index.py',
                        '_price_and_volume_trend.py', '_ease_of_movement.py', '_market_facilitation_index.py',
                        '_klinger_oscillator.py', '_volume_oscillator.py', '_volume_rate_of_change.py',
                        '_williams_accumulation_distribution.py')],
     [('calculation', IND + '*.py:_calculateTi')], [], ['getTiData'])

prop('C14', 'Trend, regression, volatility and performance values equal their definitions',
     'Linear regression value and slope, time-series forecast, forecast oscillator, directional movement system, average '
     'true range, Chaikin volatility, standard deviation and performance equal, to the decimals shown, their published '
     'definitions (in the library\'s documented convention where variants differ) on every date.',
     ['inputs', 'configurations'],
     'For every positive price data and every admissible parameter value, every date.',
     'Tests compare one stored data file with default parameters.',
     [IND + f for f in ('_linear_regression_indicator.py', '_linear_regression_slope.py', '_time_series_forecast.py',
                        '_forecast_oscillator.py', '_directional_movement_index.py', '_average_true_range.py',
                        '_volatility_chaikins.py', '_standard_deviation.py', '_performance.py')],
     [('calculation', IND + '*.py:_calculateTi')], [], ['getTiData'])

prop('C15', 'Bounded oscillators stay in range and bands stay ordered',
     'For prices with low <= open, close <= high, every value reported by RSI, RMI, IMI, stochastic, ultimate, projection '
     'and relative volatility oscillators, VHF and the directional indices lies in its 0..100 (VHF 0..1) range, Chande '
     'and stochastic momentum and swing index in -100..100, Williams %R in -100..0, Chaikin money flow in -1..1. Lower, '
     'middle and upper band values are ordered (Bollinger, envelopes, price channel, projection bands, Fibonacci levels) '
     'and volatility measures are never negative.',
     ['inputs', 'configurations'],
     'For every coherent price data and every admissible parameter value, every date.',
     'Tests never state a range for arbitrary data.',
     [IND + '*.py'], [('calculation', IND + '*.py:_calculateTi')], [], ['getTiData'])

prop('C16', 'Trading signal is always available, one of three, repeatable and read-only',
     'Once an indicator has been constructed, asking for its signal never fails, returns exactly one of buy, hold and '
     'sell in the documented form, gives the same answer when asked again, and neither it nor value look-ups change the '
     'indicator\'s values or its input.',
     ['inputs', 'configurations', 'histories'],
     'For every indicator, number of rows, every combination of values (including missing ones), every query order.',
     'Tests call the signal a few times on one data file and only check membership.',
     [IND + '*.py'], [('signal rule', IND + '*.py:getTiSignal')], [], ['getTiSignal', 'getTiValue', 'getTiData'])

prop('C17', 'Signals of averages, bands and price-level indicators follow their rules',
     'For the indicators whose signal compares the price with an average, band, level or cloud (moving averages, DEMA, '
     'TEMA, Wilder, median/typical/weighted price, Bollinger, envelopes, price channel, projection bands, Fibonacci, '
     'Ichimoku, SAR, regression/forecast lines, ATR, standard deviation and the volume-index averages) the signal is '
     'exactly the documented function of the last rows of price and indicator: buy and sell on the documented crossing '
     'or side, hold in every other case and when there are too few rows.',
     ['inputs', 'configurations'], 'For every values of the last rows, including equality and missing values.',
     'Existing tests only check that the signal is one of the three.',
     [IND + '*.py'], [('signal rule', IND + '*.py:getTiSignal')], [], ['getTiSignal'])

prop('C18', 'Signals of oscillators follow their threshold, crossing and divergence rules',
     'For the oscillators (RSI, RMI, IMI, CMO, CCI, stochastic, SMI, %R, ultimate, projection and range oscillators, '
     'relative volatility, VHF, mass index, swing index, DPO, MACD, momentum, rate of change, price oscillator, Qstick, '
     'forecast oscillator, directional movement, Chaikin volatility, performance) the signal is exactly the documented '
     'function of the last rows: buy and sell on the documented threshold or crossing, hold in every other case and when '
     'there are too few rows.',
     ['inputs', 'configurations'], 'For every values of the last rows, including equality with thresholds and missing values.',
     'Existing tests only check that the signal is one of the three.',
     [IND + '*.py'], [('signal rule', IND + '*.py:getTiSignal')], [], ['getTiSignal'])

prop('C19', 'Signals of volume indicators follow their rules',
     'For the volume-based indicators (accumulation/distribution, Chaikin money flow and oscillator, on-balance volume, '
     'positive/negative volume index, price-volume trend, ease of movement, market facilitation, Klinger, volume '
     'oscillator and rate of change, Williams accumulation/distribution) the signal is exactly the documented function '
     'of the last rows of price, volume and indicator, and hold in every other case and when there are too few rows.',
     ['inputs', 'configurations'], 'For every values of the last rows, including equality and missing values.',
     'Existing tests only check that the signal is one of the three.',
     [IND + '*.py'], [('signal rule', IND + '*.py:getTiSignal')], [], ['getTiSignal'])

prop('C20', 'Value look-up returns exactly the row of that date, or nothing',
     'Looking up a date returns the indicator\'s values of exactly that date in column order, the latest row when no date '
     'is given, and nothing when the date is not in the data or not a date; it never raises and never returns a '
     'neighbouring date.',
     ['inputs', 'configurations'],
     'For every indicator, all values, every date in, between, before and after the data, in any input row order.',
     'Tests look up one or two dates on one file.',
     [BASE], [('look-up', BASE + ':getTiValue')], [], ['getTiValue'])

prop('C21', 'Graphs plot exactly the input and indicator data',
     'The graph of an indicator draws one line per documented input column and one per indicator column, each with '
     'exactly the dates and values of the data, labelled with the column name, in one plot or in two as documented; the '
     'simulation graph draws price, exposure and balance of the returned table for every day.',
     ['inputs', 'configurations'], 'For every indicator and all values.',
     'Tests only check that a plot object comes back.',
     ['tti/utils/plot.py', BASE], [('line graph', 'tti/utils/plot.py:linesGraph'),
                                   ('simulation graph', BASE + ':_getSimulationGraph')], [], ['getTiGraph', 'getTiSimulation'])

prop('C22', 'Simulation arguments are accepted exactly in their documented ranges',
     'A simulation accepts exactly a close-price frame with the same dates as the indicator (in any row order, missing '
     'prices filled forward then backward), a maximum exposure that is none or a number above zero, and a short factor '
     'that is a number of at least one; anything else is refused with the documented error before any round is run.',
     ['inputs', 'configurations'], 'For every numeric value (symbolic), type, date-index mismatch and column layout.',
     'Tests try a few bad values.',
     [SIM, BASE], [('argument checks', SIM + ':_validateSimulationArguments')], [], ['getTiSimulation', 'TradingSimulation'])

prop('C23', 'Caller\'s data frames are never modified',
     'Constructing an indicator, querying values, signal, look-ups and graph, and running a simulation leave every data '
     'frame the caller passed in - its values, row order, column names and column order - exactly as it was, and '
     'changing the caller\'s frame afterwards does not change the indicator.',
     ['inputs', 'configurations', 'histories'],
     'For every indicator, all values and row/column orders, letter cases and missing-value patterns.',
     'Tests build fresh frames each time and never look at them afterwards.',
     ['tti/utils/data_validation.py', 'tti/utils/data_preprocessing.py', BASE, SIM],
     [('copying normalisation', 'tti/utils/data_validation.py:validateInputData')], [], ['constructors', 'getTiSimulation'])

prop('C24', 'Changing the currency unit only rescales price-denominated results',
     'Multiplying all prices by the same positive factor leaves every ratio-type indicator, every oscillator bounded by '
     'construction and every trading signal based on them unchanged, and multiplies every price-denominated indicator '
     'by that factor; multiplying all volumes by a positive factor likewise leaves volume ratios unchanged and scales '
     'volume-denominated indicators. Everything up to the rounding of displayed values; indicators that truncate volumes '
     'to whole numbers or compare prices with a fixed amount (swing index limit, range indicator) are excepted.',
     ['inputs', 'configurations'],
     'For every data and every positive scale factor (symbolic), every date, up to the rounding of displayed values.',
     'Tests never relate two runs.',
     [IND + '*.py'], [('calculation', IND + '*.py:_calculateTi')], [], ['getTiData', 'getTiSignal'])

prop('C25', 'Dates are labels: results depend on the order of the rows only',
     'Two inputs with the same rows in the same date order, but with other dates (gaps, weekends, intraday or time-zone aware '
     'stamps, years apart), give the same indicator values row by row, the same trading signal and, for the same close '
     'prices, the same simulation table and statistics.',
     ['inputs', 'configurations'],
     'For every indicator, all values, and daily, gapped, intraday, time-zone aware and many-year calendars.',
     'Tests use one daily file for all; no test relates two calendars.',
     [IND + '*.py', BASE, SIM], [('calculation', IND + '*.py:_calculateTi'), ('signal', IND + '*.py:getTiSignal'), ('simulation', BASE + ':getTiSimulation')],
     [], ['getTiData', 'getTiSignal', 'getTiSimulation'])

prop('C26', 'Results are repeatable and independent of other uses of the library',
     'Building an indicator again from the same input gives the same values and signal, and simulating again gives the same '
     'table and statistics, whatever other indicators were built, queried, plotted or simulated in between; and those other '
     'uses leave the values and the signal of the first one unchanged.',
     ['histories', 'inputs'],
     'For every indicator, all values, with a full use (values, signal, look-up, graph, simulation) of another instance in between.',
     'Tests use each instance once.',
     [IND + '*.py', BASE, SIM], [('base class', BASE + ':TechnicalIndicator'), ('simulation', SIM + ':TradingSimulation')],
     [], ['constructors', 'getTiData', 'getTiSignal', 'getTiSimulation', 'getTiGraph'])

prop('C27', 'The numeric type of the columns does not matter',
     'Whole numbers given as signed or unsigned integers of any width, as nullable integers or floats, or as single precision '
     'floats, in all the columns or in some, give the same indicator values, signal, look-ups and simulation as the same '
     'numbers given as ordinary floats; nothing wraps around, is truncated or fails because of the type.',
     ['inputs', 'configurations'],
     'For every indicator and all values; unsigned, signed, nullable and single precision types; each column alone and all together.',
     'Tests use one file with float prices and integer volumes.',
     ['tti/utils/data_validation.py', BASE, SIM], [('conversion', 'tti/utils/data_validation.py:validateInputData')],
     [], ['constructors', 'getTiData', 'getTiSignal', 'getTiValue', 'getTiSimulation'])

prop('C28', 'Reported values carry exactly the displayed precision',
     'Every value an indicator reports is rounded to four decimals (ten for the market facilitation index, whole numbers for '
     'the accumulation/distribution line; on-balance volume is a plain sum of the volumes) on every date, so that what is '
     'read, compared and stored is the figure shown.',
     ['inputs', 'configurations'],
     'For every indicator and parameter set, all values, every date and column.',
     'Tests compare with stored figures up to a tolerance of four decimals.',
     [IND + '*.py'], [('calculation', IND + '*.py:_calculateTi')], [], ['getTiData', 'getTiValue'])

with open(__file__.rsplit('/', 2)[0] + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
