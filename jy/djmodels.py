# Python 2 (Jython): Django models, without a database. The rows live in
# memory; whatever would ask a database fails.
import datetime

from django.conf import settings
settings.configure(SECRET_KEY='x', INSTALLED_APPS=[], DATABASES={},
                   USE_TZ=False, USE_I18N=False)
import django
django.setup()
from django.db import models
from django.db.models import fields, query
from django.db.models.fields.files import FieldFile
from django.contrib.auth.models import User, UserManager
from django.utils.translation import ugettext_lazy

import pyamf

import vals

ROWS = {}


class Mem(models.Manager):
    def filter(self, pk=None):
        r = ROWS.get((NAMES[self.model], pk))
        return [] if r is None else [make(r)]


class Art(models.Model):
    objects = Mem()
    n = models.IntegerField(null=True)
    s = models.CharField(max_length=10)
    x = models.FloatField(null=True)
    b = models.BooleanField(default=False)
    d = models.DateField(null=True)
    t = models.TimeField(null=True)
    dt = models.DateTimeField(null=True)
    f = models.FileField(upload_to='x')

    class Meta:
        app_label = 'app'

    @property
    def ro(self):
        return u'ro'

    def _get_rw(self):
        return self.__dict__.get('_rw', 7)

    def _set_rw(self, v):
        self._rw = v

    rw = property(_get_rw, _set_rw)


class ProxyArt(Art):
    objects = Mem()

    class Meta:
        app_label = 'app'
        proxy = True


class Sub(Art):
    objects = Mem()
    extra = models.TextField()

    class Meta:
        app_label = 'app'


class Sub2(Sub):
    objects = Mem()
    more = models.DateField(null=True)

    class Meta:
        app_label = 'app'


class Linked(Art):
    objects = Mem()
    link = models.OneToOneField(Art, parent_link=True)
    own = models.IntegerField(null=True)

    class Meta:
        app_label = 'app'


class Key(models.Model):
    objects = Mem()
    code = models.CharField(max_length=10, primary_key=True)
    n = models.IntegerField(null=True)

    class Meta:
        app_label = 'app'


class Rel(models.Model):
    objects = Mem()
    s = models.CharField(max_length=10)
    a = models.ForeignKey(Art, null=True, db_column='other')
    me = models.ForeignKey('self', null=True, related_name='kids')
    k = models.ForeignKey(Key, null=True)
    o = models.OneToOneField(Art, null=True, related_name='rel')
    m = models.ManyToManyField(Art, related_name='rels')

    class Meta:
        app_label = 'app'


class Base(models.Model):
    s = models.CharField(max_length=10)
    d = models.DateField(null=True)

    class Meta:
        app_label = 'app'
        abstract = True


class Con(Base):
    objects = Mem()
    t = models.TimeField(null=True)
    k = models.ForeignKey(Key, null=True)

    class Meta:
        app_label = 'app'


class Decl(models.Model):
    objects = Mem()
    hid = models.CharField(max_length=10)
    seen = models.CharField(max_length=10)
    z = models.IntegerField(null=True)
    f = models.FileField(upload_to='x')
    d = models.DateField(null=True)
    a = models.ForeignKey(Art, null=True, related_name='+')
    c = models.ForeignKey(Art, null=True, related_name='+')
    m = models.ManyToManyField(Art, related_name='+')

    class Meta:
        app_label = 'app'

    class __amf__:
        exclude = ('hid', 'a', 'm')
        readonly = ('seen',)
        synonym = {'z': 'zed', 'f': 'file', 'd': 'day', 'c': 'cee'}


class Stat(models.Model):
    objects = Mem()
    n = models.IntegerField(null=True)
    d = models.DateField(null=True)
    t = models.TimeField(null=True)

    class Meta:
        app_label = 'app'

    class __amf__:
        static = ('d', 'n')


class Anon(models.Model):
    objects = Mem()
    d = models.DateField(null=True)
    k = models.ForeignKey(Key, null=True)

    class Meta:
        app_label = 'app'


def twin():
    class Art(models.Model):
        objects = Mem()
        n = models.IntegerField(null=True)
        s = models.CharField(max_length=10)

        class Meta:
            app_label = 'app2'
    return Art


# a model of another application with the name of the first
Twin = twin()
pyamf.register_class(Twin, 'app.Twin')
UserManager.filter = Mem.__dict__['filter']

MODELS = {'User': User, 'Twin': Twin}
for c in (Art, ProxyArt, Sub, Sub2, Linked, Key, Rel, Con, Decl, Stat, Anon):
    MODELS[c.__name__] = c
    if c is not Anon:
        pyamf.register_class(c, 'app.' + c.__name__)
NAMES = dict((c, n) for n, c in MODELS.items())
LINKS = {'Sub': ['art_ptr_id'], 'Sub2': ['art_ptr_id', 'sub_ptr_id'],
         'Linked': ['link_id']}


def field(r):
    if r[0] == 'T':
        return datetime.time(*r[1:])
    if r[0] == 'NP':
        return fields.NOT_PROVIDED
    if r[0] == 'F':
        return r[1]
    if r[0] == 'lazy':
        return ugettext_lazy(r[1])
    return vals.build(r)


def make(row):
    kw = dict((str(k), field(v)) for k, v in row['f'].items())
    for k, v in row.get('fk', {}).items():
        if v is not None:
            kw[str(k) + '_id'] = v
    if row['pk'] is not None:
        kw['code' if row['m'] == 'Key' else 'id'] = row['pk']
        for k in LINKS.get(row['m'], ()):
            kw[k] = row['pk']
    # attributes set later, as a database row may hold anything
    late = dict((k, kw.pop(k)) for k in list(kw)
                if kw[k] is fields.NOT_PROVIDED)
    o = MODELS[row['m']](**kw)
    for k, v in late.items():
        setattr(o, k, v)
    return o


def link(o, inst, os):
    for k, i in inst['l'].items():
        setattr(o, k, None if i is None else os[i])
    if inst.get('mm') is not None:
        o._prefetched_objects_cache = {'m': [os[i] for i in inst['mm']]}
    if o.__class__ is User:
        o._prefetched_objects_cache = {'groups': [], 'user_permissions': []}
    for k, v in inst['dyn'].items():
        setattr(o, k, field(v))


def value(r, os):
    if r[0] == 'inst':
        return os[r[1]]
    if r[0] == 'list':
        return [value(x, os) for x in r[1]]
    if r[0] == 'tuple':
        return tuple([value(x, os) for x in r[1]])
    if r[0] == 'dict':
        return dict((k, value(x, os)) for k, x in r[1])
    if r[0] == 'qs':
        q = query.QuerySet(model=os[r[1][0]].__class__ if r[1] else Art)
        q._result_cache = [os[i] for i in r[1]]
        return q
    return field(r)


def op_encode(req):
    ROWS.clear()
    os = [make(req['rows'][i['r']]) for i in req['insts']]
    for o, i in zip(os, req['insts']):
        link(o, i, os)
    top = [value(r, os) for r in req['top']]
    before = [state(o) for o in os]
    enc = pyamf.get_encoder(req['v'])
    try:
        for v in top:
            enc.writeElement(v)
    except vals.ERRORS, e:
        return {'enc_error': vals.err(e), 'msg': vals.msg(e)}
    return {'hex': enc.stream.getvalue().encode('hex'),
            'changed': before != [state(o) for o in os]}


def show(v):
    if v is fields.NOT_PROVIDED:
        return ['NP']
    if isinstance(v, datetime.datetime):
        return ['date', str(vals.date_us(v))]
    if isinstance(v, datetime.date):
        return ['day', v.year, v.month, v.day]
    if isinstance(v, datetime.time):
        return ['time', v.hour, v.minute, v.second, v.microsecond,
                repr(v.tzinfo)]
    if isinstance(v, FieldFile):
        return vals.dump(v.name)
    return vals.dump(v)


def state(o):
    return sorted((k, id(v) if isinstance(v, models.Model) else
                   k != '_state' and show(v)) for k, v in o.__dict__.items()
                  if not k.endswith('_cache') or isinstance(v, models.Model))


def op_decode(req):
    ROWS.clear()
    for r in req['rows']:
        if r['pk'] is not None:
            ROWS[r['m'], r['pk']] = r
    dec = pyamf.get_decoder(req['v'], req['hex'].decode('hex'))
    try:
        top = dec.readElement()
    except vals.ERRORS, e:
        return {'dec_error': vals.err(e), 'msg': vals.msg(e)}
    ids = dict((id(o), i) for i, o in enumerate(top))
    out = []
    for o in top:
        at, rel = {}, {}
        for k, v in o.__dict__.items():
            if k == '_rw':
                at['rw'] = show(v)
            elif k == '_state':
                if v.__class__.__name__ != 'ModelState':
                    at[k] = ['overwritten']
            elif k.endswith('_ptr_id') or k == 'link_id':
                pass
            elif k.startswith('_') and k.endswith('_cache'):
                if k[1:-6] in req['rels']:
                    rel[k[1:-6]] = v and ids.get(id(v), '?')
            elif k.startswith('_'):
                at[k] = ['private']
            else:
                at[k] = show(v)
        out.append([NAMES.get(o.__class__, '?'), at, rel])
    return {'vals': out, 'left': len(req['hex']) // 2 - dec.stream.tell()}


OPS = {'djencode': op_encode, 'djdecode': op_decode}
