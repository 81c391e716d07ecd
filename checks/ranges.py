"""Known ranges of the reported values, for prices with low <= open, close <= high."""
P = (0, 100)
CELL = {'RelativeStrengthIndex': P, 'RelativeMomentumIndex': P, 'IntradayMomentumIndex': P, 'StochasticOscillator': P, 'UltimateOscillator': P,
        'ProjectionOscillator': P, 'RelativeVolatilityIndex': P, 'DirectionalMovementIndex': P, 'RangeIndicator': P,
        'VerticalHorizontalFilter': (0, 1), 'ChandeMomentumOscillator': (-100, 100), 'StochasticMomentumIndex': (-100, 100),
        'SwingIndex': (-100, 100), 'WilliamsR': (-100, 0), 'ChaikinMoneyFlow': (-1, 1), 'AverageTrueRange': (0, None),
        'StandardDeviation': (0, None), 'MarketFacilitationIndex': (0, None), 'MassIndex': (0, None), 'NegativeVolumeIndex': (0, None),
        'PositiveVolumeIndex': (0, None), 'Momentum': (0, None), 'PriceRateOfChange': (-100, None), 'VolatilityChaikins': (-100, None),
        'VolumeRateOfChange': (-100, None), ('Performance', 'prf'): (-1, None)}
# (lower, upper): columns of the values or of the input
ORDER = {'BollingerBands': (('lower_band', 'middle_band'), ('middle_band', 'upper_band')), 'Envelopes': (('lower_band', 'upper_band'),),
         'PriceChannel': (('lowest_low', 'highest_high'),),
         'ProjectionBands': (('lower_band', 'upper_band'), ('lower_band', 'low'), ('high', 'upper_band')),
         'FibonacciRetracement': tuple(('rl_%s' % b, 'rl_%s' % a) for a, b in (('0.0', '23.6'), ('23.6', '38.2'), ('38.2', '50.0'),
                                                                               ('50.0', '61.8'), ('61.8', '100.0'))) +
         (('rl_100.0', 'close'), ('close', 'rl_0.0')),
         'MedianPrice': (('low', 'mp'), ('mp', 'high')), 'TypicalPrice': (('low', 'tp'), ('tp', 'high')),
         'WeightedClose': (('low', 'wc'), ('wc', 'high'))}
# window (None: all earlier rows), column of the lower and of the upper extreme
WITHIN = {'MovingAverage': (lambda kw: kw['period'] if kw['ma_type'] == 'simple' else None if kw['ma_type'] != 'triangular' else None,
                            'close', 'close'),
          'WildersSmoothing': (lambda kw: None, 'close', 'close'), 'ParabolicSAR': (lambda kw: None, 'low', 'high')}
