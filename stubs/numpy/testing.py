# Stand-in for numpy.testing (scalars only), following numpy 1.6-1.8.


def assert_almost_equal(actual, desired, decimal=7, err_msg='', verbose=True):
    if isinstance(actual, complex) or isinstance(desired, complex):
        raise NotImplementedError('complex numbers')
    if actual == desired:
        return
    if actual != actual or desired != desired:
        if actual != actual and desired != desired:
            return
        raise AssertionError('Arrays are not almost equal to %d decimals' %
                             decimal)
    if abs(desired - actual) >= 1.5 * 10.0 ** (-decimal):
        raise AssertionError('Arrays are not almost equal to %d decimals' %
                             decimal)
