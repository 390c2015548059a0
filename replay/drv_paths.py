"""Executable contract of data_slice_path (P15)."""

import itertools

import common
import fakekd

NAMES = ['a', 'x1', '_p', 'get_keys', 'get_values', 'get_attr', 'get_attr_', 'é', '变', 'a_b', 'class', 'None',
         '', ' ', '.', 'a.b', '.a', 'a.', '[:]', 'a[:]', '[', ':', ']', '"', "'", '")', "')", 'a"b', '()', 'get_keys()',
         '.get_keys()', '.get_attr("', 'a(b', '\n', '\\', '1a', 'a-b', '日 本', '\U0001f600', 'x' * 70, '\x00', 'a\tb', '=', '==',
         'Ünï', 'aé.b', '%s', '{x}']
# Texts that are no spelling of any path.
PIECES = ['.', '..', 'a', '[', '[:', '[:]', ']', ':', '.a', '.get_attr(', '.get_attr()', '.get_attr("', '.get_attr("")',
          ".get_attr('')", '.get_attr("YQ==")', ".get_attr('YQ==')", '.get_attr("YQ==\')', '.get_attr("YQ=")', '.get_attr("!")',
          '.get_attr("gA==")', '.get_attr("YQ==") ', '.get_attr(YQ==)', '.get_keys()', '.get_keys(', '.get_keys', '.get_values()',
          '.get_values', '()', ')', ' ', '"', "'", '.1', '.a-b', '.é', 'é', '.get_attr("YQ==")x', '[0]', '[::]', '.a[:]', '.a[', '.a[:',
          '.a()', '\n', '.a\n', '.get_keys()()', '.get_attr("YS5i")', '.get_attr(""', '.get_attr', '.get_attr(`YQ==`)',
          '.get_attr( "YQ==")', '.get_attr("YQ==" )', '.get_attr("YQ==",)', '.GET_KEYS()', '.get_attr("YR==")', '.\ta', '.a ', '.get_keys( )',
          '[ : ]', '[:]\n', '/a', '.get_attr("Y Q==")', '.get_attr("_-8=")', '.get_attr("YQ")', '.get_attr("YQ\n==")', '->a', 'self.a']


def reference(text, kd):
  """All readings of a text by the documented grammar (at most one is found)."""
  out = []
  i = 0
  while i < len(text):
    if text.startswith('.get_keys()', i):
      out.append(('keys',))
      i += 11
    elif text.startswith('.get_values()', i):
      out.append(('values',))
      i += 13
    elif text.startswith('[:]', i):
      out.append(('list',))
      i += 3
    elif text.startswith('.get_attr(', i):
      i += 10
      if i >= len(text) or text[i] not in '"\'':
        return None
      q = text[i]
      j = text.find(q, i + 1)
      if j < 0 or text[j:j + 2] != q + ')':
        return None
      try:
        n = kd.strings.decode(kd.strings.decode_base64(text[i + 1:j])).to_py()
      except ValueError:
        return None
      out.append(('attr', n))
      i = j + 2
    elif text[i] == '.':
      j = min([x for x in (text.find('.', i + 1), text.find('[:]', i + 1)) if x >= 0] or [len(text)])
      if not text[i + 1:j].isidentifier():
        return None
      out.append(('attr', text[i + 1:j]))
      i = j
    else:
      return None
  return out


class Ds:
  """Records the operations applied."""

  def __init__(self, ops=(), broken=None):
    self.ops = ops
    self.broken = broken

  def do(self, *op):
    if self.broken is not None and len(self.ops) == self.broken:
      raise ValueError('not applicable')
    return Ds(self.ops + (op,), self.broken)

  def get_keys(self):
    return self.do('keys')

  def get_values(self):
    return self.do('values')

  def explode(self):
    return self.do('list')

  def get_attr(self, n):
    return self.do('attr', n)


class Sch:
  """A schema: kind and parts (children may be shared or recursive)."""

  def __init__(self, kind, parts=None):
    self.kind = kind
    self.parts = parts or {}

  def is_dict_schema(self):
    return self.kind == 'dict'

  def is_list_schema(self):
    return self.kind == 'list'

  def is_entity_schema(self):
    return self.kind == 'entity'

  def get_key_schema(self):
    return self.parts['keys']

  def get_value_schema(self):
    return self.parts['values']

  def get_item_schema(self):
    return self.parts['items']

  def get_attr(self, n):
    return self.parts[n]

  def get_itemid(self):
    if self.kind == 'prim':
      raise ValueError('no itemid')
    return self

  def no_bag(self):
    return self


def run(c):
  kd = fakekd.install()
  kd.has_attr = lambda s, n: n in s.parts
  kd.any = lambda x: x
  kd.dir = lambda s: sorted(s.parts)
  common.stub_modules('koladata.ext.storage.stubs_and_minimal_bags_lib')
  from koladata.ext.storage import data_slice_path as m
  rng = c.rng
  P = m.DataSlicePath

  def mk(a):
    return {'keys': m.DictGetKeys, 'values': m.DictGetValues, 'list': m.ListExplode}[a[0]]() if a[0] != 'attr' else m.GetAttr(a[1])

  def un(x):
    for k, t in (('keys', m.DictGetKeys), ('values', m.DictGetValues), ('list', m.ListExplode)):
      if type(x) is t:
        return (k,)
    return ('attr', x.attr_name) if type(x) is m.GetAttr else ('?', x)

  acts = [('keys',), ('values',), ('list',)] + [('attr', n) for n in NAMES]

  def roundtrip(seq):
    c.ev(sample=seq)
    p = P.from_actions([mk(a) for a in seq])
    try:
      t = p.to_string()
      if str(p) != t:
        c.fail('str', 'str(path) and to_string() differ', actions=repr(seq))
      q = P.parse_from_string(t)
    except Exception as e:  # pylint: disable=broad-except
      c.fail('roundtrip-raise', 'the text of a path cannot be read back', actions=repr(seq), error=repr(e))
      return
    got = [un(x) for x in q.actions]
    if got != list(seq) or q != p or hash(q) != hash(p):
      c.fail('roundtrip', 'a path read back from its text is another path', actions=repr(seq), text=t, got=repr(got))

  for n in (0, 1, 2):
    for seq in itertools.product(acts, repeat=n):
      if c.enough():
        return
      roundtrip(seq)

  def accept(t):
    c.ev(sample=t)
    want = reference(t, kd)
    try:
      got = [un(x) for x in P.parse_from_string(t).actions]
    except ValueError:
      got = None
    except Exception as e:  # pylint: disable=broad-except
      c.fail('raise', 'a malformed path raises something else than ValueError', text=t, error=repr(e))
      return
    if got != want:
      c.fail('accept', 'a text is read as other actions than it spells', text=t, got=repr(got), want=repr(want))

  for n in (1, 2):
    for t in itertools.product(PIECES, repeat=n):
      if c.enough():
        return
      accept(''.join(t))
  for _ in range(60000 if c.thorough else 6000):
    if c.enough():
      return
    accept(''.join(rng.choice(PIECES) for _ in range(rng.randrange(3, 6))))
    roundtrip([rng.choice(acts) for _ in range(rng.randrange(3, 9))])
  roundtrip([rng.choice(acts) for _ in range(3000)])
  for a in acts:  # one action object used several times
    x = mk(a)
    for n in (2, 3, 40):
      c.ev()
      p = P.from_actions([x] * n)
      if p.depth != n or [un(y) for y in P.parse_from_string(p.to_string()).actions] != [a] * n:
        c.fail('roundtrip', 'a path read back from its text is another path', actions=f'{n} times {a!r}', text=str(p))

  # evaluation and building
  for _ in range(2000 if c.thorough else 300):
    if c.enough():
      return
    s1 = [rng.choice(acts) for _ in range(rng.randrange(5))]
    s2 = [rng.choice(acts) for _ in range(rng.randrange(5))]
    p, q = P.from_actions([mk(a) for a in s1]), P.from_actions([mk(a) for a in s2])
    r = p.concat(q)
    c.ev()
    if [un(x) for x in r.actions] != s1 + s2 or [un(x) for x in p.actions] != s1 or r.depth != len(s1) + len(s2):
      c.fail('concat', 'concat does not append the actions', left=repr(s1), right=repr(s2), got=repr(r))
    if s2 and [un(x) for x in p.extended_with_action(mk(s2[0])).actions] != s1 + s2[:1]:
      c.fail('extend', 'extended_with_action does not append the action', left=repr(s1), right=repr(s2[0]))
    want = tuple(tuple(a) for a in s1 + s2)
    got = r.evaluate(Ds()).ops
    if got != want or q.evaluate(p.evaluate(Ds())).ops != want:
      c.fail('evaluate', 'evaluating a path does not apply its actions in order', actions=repr(s1 + s2), got=repr(got))
    for k in range(len(want)):
      try:
        r.evaluate(Ds(broken=k))
        c.fail('evaluate-fail', 'a failing action does not fail the evaluation', actions=repr(s1 + s2), at=k)
      except ValueError:
        pass

  # the operations on schemas, and equality
  for a in acts:
    c.ev()
    want = {'keys': '.get_key_schema()', 'values': '.get_value_schema()', 'list': '.get_item_schema()',
            'attr': str(mk(a))}[a[0]]
    if mk(a).get_subschema_operation() != want:
      c.fail('operation', 'another schema operation than the documented one', action=repr(a),
             got=mk(a).get_subschema_operation(), want=want)
    for b in acts:
      for x, y in ((mk(a), mk(b)), (P.from_actions([mk(a)]), P.from_actions([mk(b)]))):
        c.ev()
        if (x == y) != (a == b) or (a == b and hash(x) != hash(y)):
          c.fail('equal', 'paths or actions are equal exactly if they spell the same', left=repr(a), right=repr(b))

  # schemas
  prim = Sch('prim')
  wide = Sch('entity', {f'w{j:04}': prim for j in range(1500)})
  got = [[un(x) for x in p.actions] for p in m.generate_data_slice_paths_for_arbitrary_data_slice_with_schema(wide, -1)]
  if sorted(got) != [[]] + [[('attr', n)] for n in sorted(wide.parts)]:
    c.fail('generate', 'the paths of a schema with 1500 attributes are not one for each', got=len(got))
  for _ in range(1500 if c.thorough else 200):
    if c.enough():
      return
    pool = [prim, Sch('entity')]
    for _ in range(rng.randrange(1, 6)):
      k = rng.choice(['dict', 'list', 'entity'])
      pick = lambda: rng.choice(pool)
      pool.append(Sch(k, {'keys': pick(), 'values': pick()} if k == 'dict' else {'items': pick()} if k == 'list'
                      else {n: pick() for n in rng.sample(NAMES, rng.randrange(4))}))
    root = pool[-1]
    if rng.random() < .3 and root.kind == 'entity':
      root.parts['self'] = root  # recursive
    for s in pool:
      for a in [('keys',), ('values',), ('list',), ('attr', 'a'), ('attr', ''), ('attr', 'self'), ('attr', 'items'),
                ('attr', 'keys'), ('attr', 'values'), ('attr', '__items__')] + [('attr', n) for n in s.parts]:
        want = {'keys': s.parts.get('keys') if s.kind == 'dict' else None,
                'values': s.parts.get('values') if s.kind == 'dict' else None,
                'list': s.parts.get('items') if s.kind == 'list' else None,
                'attr': s.parts.get(a[-1]) if s.kind == 'entity' else None}[a[0]]
        c.ev()
        try:
          got = mk(a).get_subschema(s)
        except m.IncompatibleSchemaError:
          got = None
        if got is not want:
          c.fail('subschema', 'get_subschema gives the wrong subschema', action=repr(a), kind=s.kind, parts=sorted(s.parts))

    def step(s):
      if s.kind == 'dict':
        return [(('keys',), s.parts['keys']), (('values',), s.parts['values'])]
      if s.kind == 'list':
        return [(('list',), s.parts['items'])]
      if s.kind == 'entity':
        return [(('attr', n), s.parts[n]) for n in sorted(s.parts)]
      return []

    depth = rng.randrange(-1 if 'self' not in root.parts else 0, 4)
    level, want, d = [((), root)], [], 0
    while level and (depth == -1 or d <= depth):
      want += [p for p, _ in level]
      level = [(p + (a,), t) for p, s in level for a, t in step(s)]
      d += 1
    got = [tuple(un(x) for x in p.actions)
           for p in m.generate_data_slice_paths_for_arbitrary_data_slice_with_schema(root, depth)]
    c.ev()
    if got != want and sorted(got, key=len) != got or sorted(map(repr, got)) != sorted(map(repr, want)):
      c.fail('generate', 'the paths of a schema are not all of depth at most the limit, each once, short ones first',
             depth=depth, got=repr(got)[:600], want=repr(want)[:600])
