class WC1994(object):
    pass


class PeerMSR(object):
    pass


class PointMSR(object):
    pass


def get_available_magnitude_scalerel():
    return dict(WC1994=WC1994, PeerMSR=PeerMSR, PointMSR=PointMSR)
