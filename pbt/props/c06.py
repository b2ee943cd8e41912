from pbt.props.c05 import Read


class Read3(Read):
    ver = 3


PROP = Read3()
PROP.id = 'C06'
