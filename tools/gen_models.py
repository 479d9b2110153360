#!/usr/bin/env python3
"""Writes harness/src/models_gen.rs (derives of the code under test) and entities_gen.rs (what the
harness knows about them). Fixed seed: run it again after changing the shapes."""
import random, os, json
R = random.Random(20240611)
SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), '../harness/src')

# type -> (spellings, Ty, Copy and Into<Value>: may be a key)
TYPES = {
 'i8': (['i8'], 'I8', 1), 'i16': (['i16'], 'I16', 1), 'i32': (['i32'], 'I32', 1), 'i64': (['i64'], 'I64', 1),
 'u8': (['u8'], 'U8', 1), 'u16': (['u16'], 'U16', 1), 'u32': (['u32'], 'U32', 1), 'u64': (['u64'], 'U64', 1),
 'f32': (['f32'], 'F32', 1), 'f64': (['f64'], 'F64', 1), 'bool': (['bool'], 'Bool', 1),
 'String': (['String', 'String', 'std::string::String', '::std::string::String', 'string::String'], 'Text', 0),
 'Vec<u8>': (['Vec<u8>', 'std::vec::Vec<u8>'], 'Blob', 0),
 'NaiveDate': (['NaiveDate', 'chrono::NaiveDate'], 'Date', 0),
 'NaiveDateTime': (['NaiveDateTime', 'chrono::NaiveDateTime'], 'Datetime', 0),
 'Duration': (['Duration', 'chrono::Duration'], 'Time', 1),
 'Hex': (['Hex', 'mysql_connector::types::Hex', 'types::Hex'], 'Hex', 0),
}
NAMES = list(TYPES)

def spell(t, null):
    s = R.choice(TYPES[t][0])
    if null:
        s = R.choice(['Option<%s>', 'Option<%s>', 'std::option::Option<%s>', 'option::Option<%s>']) % s
    return s

# structs stored in several columns: name -> (path in attributes, [(field, column, type, null)])
STRUCTS = {
 'Vec3': ('Vec3', [('x', 'x', 'f32', 0), ('y', 'y', 'f32', 0), ('z', 'z', 'f32', 0)]),
 'Money': ('Money', [('amount', 'amount', 'i64', 0), ('currency', 'cur', 'String', 1)]),
 'shapes::Span': ('shapes::Span', [('from', 'begin', 'NaiveDate', 0), ('to', 'from', 'NaiveDate', 1)]),
 'One': ('One', [('r#type', 'r#type', 'u16', 0)]),
 'Swap': ('Swap', [('a', 'b', 'i32', 0), ('b', 'a', 'i32', 0)]),
}
def s(name, t, null=0): return ('s', name, t, null)
def t(name, st): return ('t', name, st)
def r(name, model): return ('r', name, model)

MODELS = []  # (name, table, primary, auto, fields)
def model(*a): MODELS.append(a)

# ---- by hand
model('Only', 'only', 'id', True, [s('id', 'u64')])
model('Leafy', 'leaf', 'id', True, [s('id', 'u32'), s('name', 'String'), s('r#type', 'i32', 1)])
# another view of the same table
model('LeafView', 'leaf', 'id', True, [s('r#type', 'i32', 1), s('id', 'u32')])
# names that mean something to SQL or inside the generated code
model('Words', 'order', 'key', False, [s('select', 'i32', 1), s('key', 'i16'), s('group', 'String', 1), s('row', 'u8', 1), s('mapping', 'u16', 1),
      s('index', 'i64', 1), s('table', 'bool', 1), s('column', 'f64', 1), s('values', 'u32', 1), s('conn', 'i8', 1), s('value', 'u64', 1), s('this', 'Hex', 1)])
model('Every', 'every type', 'id', False, [s('id', 'i64')] + [s('f%d' % i, x) for i, x in enumerate(NAMES)])
model('Maybe', 'Maybe', 'code', False, [s('m%d' % i, x, 1) for i, x in enumerate(NAMES)] + [s('code', 'u8')])
model('Structs', 'structs', 'id', True, [t('pos', 'Vec3'), s('id', 'i32'), t('size', 'Vec3'), t('price', 'Money'), t('span', 'shapes::Span'), t('r#in', 'One'), t('swap', 'Swap')])
model('Timed', 'timed', 'after', False, [s('after', 'Duration'), s('note', 'String', 1), t('price', 'Money')])
model('Float', 'float', 'size', False, [s('label', 'String', 1), s('size', 'f64')])
model('Middle', 'mid', 'key', False, [s('name', 'String'), s('key', 'u64'), r('leaf', 'Leafy'), t('pos', 'Vec3'), r('other', 'Leafy')])
# the same names at every level, references to the same table at several places, references before fields
model('Rooty', 'root', 'id', True, [r('mid', 'Middle'), s('id', 'u32'), t('pos', 'Vec3'), r('twin', 'Middle'), s('name', 'String'), r('leaf', 'Leafy'), t('extra', 'Money'), t('size', 'Vec3')])
# references called like tables, like prefixes of each other and like the own table
model('Ringy', 'ring', 'id', True, [s('id', 'u64'), r('ring', 'Leafy'), r('mid', 'Leafy'), r('mid2', 'Middle'), r('r#type', 'LeafView'), r('leaf', 'Only'), r('mi', 'Only')])
model('Keys', 'keys', 'id', False, [r('timed', 'Timed'), s('id', 'i8'), r('float', 'Float'), r('order', 'Words')])
model('Refs', 'refs.with.dots', 'id', True, [s('id', 'i16'), r('only', 'Only'), r('only_b', 'Only')])
model('Deep', 'größe', 'nr', True, [s('nr', 'i64'), r('a', 'Refs'), r('root', 'Rooty')])
model('Wide', 'wide', 'id', True, [s('id', 'u32')] + [s('c%02d' % i, R.choice(NAMES), 1) for i in range(45)])

# ---- at random
WORDS = ['id', 'name', 'x', 'y', 'kind', 'key', 'a', 'b', 'ab', 'abc', 'owner', 'own', 'size', 'data', 'date', 'desc', 'from', 'to', 'limit', 'r#type', 'r#match', 'r#ref', 'r#fn', 'leaf', 'mid', 'state', 'map', 'n0', 'n1', 'n2', 'Upper', '_x', 'x_', 'größe', 'user_id', 'user']
weight = {}
def width(m):
    if m not in weight:
        mm = [x for x in MODELS if x[0] == m][0]
        n = 0
        for f in mm[4]:
            n += 1 if f[0] == 's' else len(STRUCTS[f[2]][1]) if f[0] == 't' else width(f[2])
        weight[m] = n
    return weight[m]
for i in range(22):
    words = WORDS[:]; R.shuffle(words)
    # no column may be named twice, ignoring case
    used = set()
    fields = []
    keyt = R.choice(['i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'u32', 'u64'])
    total = R.choice([1, 2, 3, 5, 8, 11])
    def take(cols):
        low = [c.replace('r#', '').lower() for c in cols]
        if any(c in used for c in low): return False
        used.update(low); return True
    key = words.pop(); take([key]); fields.append(s(key, keyt))
    while len(fields) < total and words:
        w = words.pop(); plain = w.replace('r#', '')
        c = R.random()
        if c < 0.55:
            if take([w]):
                fields.append(s(w, R.choice(NAMES), R.randrange(2)))
        elif c < 0.7:
            st = R.choice(list(STRUCTS))
            if take([plain] + ['%s_%s' % (plain, x[1].replace('r#', '')) for x in STRUCTS[st][1]]):
                fields.append(t(w, st))
        else:
            ms = [m[0] for m in MODELS if width(m[0]) <= 24 and m[0] not in ('Float',)]
            if take([w]):
                fields.append(r(w, R.choice(ms)))
    R.shuffle(fields)
    model('G%02d' % i, R.choice(['g%02d', 'G%02d', 't g%02d', 'g%02d.x', 'g-%02d']) % i, key.replace('r#', ''), R.random() < 0.5, fields)

# ---- names whose lengths in bytes and in characters differ
model('Umlaut', 'straße', 'id', False, [s('id', 'u16'), r('größe', 'Middle'), r('größer', 'Leafy'), t('wörter', 'Money'), r('日本', 'Refs'), s('ö', 'String', 1)])
model('Umlauts', 'ü', 'id', True, [r('ä', 'Umlaut'), s('id', 'u32'), r('ää', 'Leafy')])
# a reference called like the own table, with references of its own, one of them called like that again
model('Knot2', 'knot2', 'id', True, [s('id', 'u32'), r('knot', 'Leafy'), s('x', 'i32')])
model('Knot', 'knot', 'key', True, [s('id', 'i32', 1), s('key', 'u16'), r('knot', 'Knot2'), r('leaf', 'Leafy'), s('x', 'String')])

by = {m[0]: m for m in MODELS}
def raw(x): return x.replace('r#', '')

out = ['//! Written by tools/gen_models.py: nothing but derives of the code under test.',
       '#![allow(non_snake_case, dead_code)]',
       'use {', '    chrono::{Duration, NaiveDate, NaiveDateTime},', '    mysql_connector::{macros::*, types, types::Hex},', '    std::{option, string},', '};', '']
def struct(name, path):
    o = ['#[derive(Debug)]', 'pub struct %s {' % name]
    for f, _, ty, null in STRUCTS[path][1]:
        o.append('    pub %s: %s,' % (f, 'Option<%s>' % ty if null else ty))
    return o + ['}']
for n in STRUCTS:
    if '::' in n:
        m, x = n.split('::')
        out += ['pub mod %s {' % m, '    use chrono::NaiveDate;', ''] + ['    ' + l for l in struct(x, n)] + ['}', '']
    else:
        out += struct(n, n) + ['']
for name, table, primary, auto, fields in MODELS:
    attrs = ['table = "%s"' % table, 'primary = "%s"' % primary, 'auto_increment = "%s"' % ('true' if auto else 'false')]
    seen = []
    for f in fields:
        if f[0] == 't' and f[2] not in seen:
            seen.append(f[2])
            fs = []
            for a, b, _, _ in STRUCTS[f[2]][1]:
                fs.append(a if a == b else '%s: %s' % (a, b))
            attrs.append('ty = %s { %s }' % (f[2], ', '.join(fs)))
    R.shuffle(attrs)
    out += ['#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]', '#[mysql_connector(%s)]' % ', '.join(attrs), 'pub struct %s {' % name]
    for f in fields:
        ty = spell(f[2], f[3]) if f[0] == 's' else f[2] if f[0] == 't' else R.choice(['%s', 'self::%s', 'super::models_gen::%s']) % f[2]
        out.append('    pub %s: %s,' % (f[1], ty))
    out += ['}', '']
open(SRC + '/models_gen.rs', 'w').write('\n'.join(out))

e = ['//! Written by tools/gen_models.py: the shapes as the harness knows them.',
     'use crate::{', '    entities::{activate, Act, Cell, Entity, Field, Node, Spec, Ty},', '    models_gen as m,', '};',
     'use mysql_connector::{model::{ActiveReference, ActiveValue, HasActiveModel, UpdateModel}, types::Value};', '']
for name, table, primary, auto, fields in MODELS:
    spec, dump, build, apply = [], [], [], []
    for f in fields:
        n = f[1]
        if f[0] == 's':
            spec.append('Field::Simple("%s", Ty::%s, %s)' % (raw(n), TYPES[f[2]][1], 'true' if f[3] else 'false'))
            dump.append('Node::Val(self.%s.put())' % n)
            build.append('%s: Cell::get(n.next()?.val()?)?' % n)
            apply.append('match p.next()? { Act::Val(v) => m.%s = ActiveValue::Set(Cell::get(v)?), Act::Unset => (), _ => return None }' % n)
        elif f[0] == 't':
            st = STRUCTS[f[2]][1]
            spec.append('Field::Struct("%s", &[%s])' % (raw(n), ', '.join('("%s_%s", Ty::%s, %s)' % (raw(n), raw(c), TYPES[x][1], 'true' if nl else 'false') for _, c, x, nl in st)))
            dump.append('Node::Struct(vec![%s])' % ', '.join('self.%s.%s.put()' % (n, a) for a, _, _, _ in st))
            lit = 'm::%s { %s }' % (f[2], ', '.join('%s: Cell::get(v.next()?)?' % a for a, _, _, _ in st))
            build.append('%s: { let mut v = n.next()?.cells()?; %s }' % (n, lit))
            apply.append('match p.next()? { Act::Struct(v) => { let mut v = v.iter(); m.%s = ActiveValue::Set(%s) }, Act::Unset => (), _ => return None }' % (n, lit))
        else:
            spec.append('Field::Ref("%s", <m::%s as Entity>::spec)' % (raw(n), f[2]))
            dump.append('Node::Ref(self.%s.dump())' % n)
            build.append('%s: Entity::build(n.next()?.nodes()?)?' % n)
            apply.append('match p.next()? { Act::Key(v) => m.%s = ActiveReference::Set(Cell::get(v)?), Act::Insert(v) => m.%s = ActiveReference::Insert(activate::<m::%s>(v)?), Act::Unset => (), _ => return None }' % (n, n, f[2]))
    e += ['impl Entity for m::%s {' % name,
          '    fn spec() -> &\'static Spec {',
          '        static S: Spec = Spec { rust: "%s", table: "%s", primary: "%s", auto: %s, fields: &[%s] };' % (name, table, primary, 'true' if auto else 'false', ', '.join(spec)),
          '        &S', '    }',
          '    fn dump(self) -> Vec<Node> {', '        vec![%s]' % ', '.join(dump), '    }',
          '    fn build(n: &[Node]) -> Option<Self> {', '        let mut n = n.iter();', '        Some(Self { %s })' % ', '.join(build), '    }',
          '    fn updater(v: &Value) -> Option<UpdateModel<Self>> {', '        Some(UpdateModel::new(Cell::get(v)?))', '    }',
          '    fn apply(m: &mut <Self as HasActiveModel>::ActiveModel, p: &[Act]) -> Option<()> {', '        let mut p = p.iter();'] \
       + ['        %s' % a for a in apply] + ['        Some(())', '    }', '}', '']
e += ['/// One function for each model.', '#[macro_export]', 'macro_rules! every_entity {', '    ($f:ident, $t:ty) => {', '        &[']
e += ['            $f::<$crate::models_gen::%s> as $t,' % m[0] for m in MODELS]
e += ['        ]', '    };', '}', '']
open(SRC + '/entities_gen.rs', 'w').write('\n'.join(e))
print(len(MODELS), 'models; leaves:', [width(m[0]) for m in MODELS])
