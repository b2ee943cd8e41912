from pbt.props.c03 import Wire
from hypothesis import strategies as st


class Wire3(Wire):
    ver = 3

    def badkeys(self):
        return st.just('')


PROP = Wire3()
PROP.id = 'C04'
