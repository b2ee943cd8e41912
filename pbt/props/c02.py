from hypothesis import strategies as st

from pbt import gen
from pbt.props.c01 import RoundTrip


class RoundTrip3(RoundTrip):
    ver = 3

    def badkeys(self):
        return st.just('')


PROP = RoundTrip3()
PROP.id = 'C02'
