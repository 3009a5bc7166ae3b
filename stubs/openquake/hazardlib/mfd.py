RATES = [None]       # function: mfd -> list of pairs (magnitude, rate)


class BaseMFD(object):
    MODIFICATIONS = ()

    def modify(self, modification, parameters):
        if modification not in self.MODIFICATIONS:
            raise ValueError('Modification %s is not supported by %s' % (
                modification, type(self).__name__))
        self.modifications.append((modification, parameters))
        getattr(self, 'modify_%s' % modification)(**parameters)

    def get_annual_occurrence_rates(self):
        return RATES[0](self)


class TruncatedGRMFD(BaseMFD):
    MODIFICATIONS = ('increment_max_mag', 'set_max_mag', 'increment_b',
                     'set_ab')

    def __init__(self, min_mag, max_mag, bin_width, a_val, b_val):
        self.min_mag = min_mag
        self.max_mag = max_mag
        self.bin_width = bin_width
        self.a_val = a_val
        self.b_val = b_val
        self.modifications = []

    def get_min_max_mag(self):
        return self.min_mag, self.max_mag

    def modify_increment_max_mag(self, value):
        self.max_mag += value

    def modify_set_max_mag(self, value):
        self.max_mag = value

    def modify_increment_b(self, value):
        self.b_val += value

    def modify_set_ab(self, a_val, b_val):
        self.a_val = a_val
        self.b_val = b_val


class EvenlyDiscretizedMFD(BaseMFD):
    def __init__(self, min_mag, bin_width, occurrence_rates):
        self.min_mag = min_mag
        self.bin_width = bin_width
        self.occurrence_rates = occurrence_rates
        self.modifications = []

    def get_min_max_mag(self):
        return self.min_mag, self.min_mag + self.bin_width * (
            len(self.occurrence_rates) - 1)

    def get_annual_occurrence_rates(self):
        return [(self.min_mag + i * self.bin_width, rate)
                for i, rate in enumerate(self.occurrence_rates)]
