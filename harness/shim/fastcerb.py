# Python 2 (Jython).  A fast path in front of the real cerberus.Validator.
#
# cerberus re-validates the schema itself and builds a tree of child validators for every object, which costs
# over a millisecond per object.  FastValidator evaluates the few rules this repository's schemas use directly.
# It only ever short-cuts ACCEPTANCE: a document the fast path does not accept, or a schema or rule it does not
# know, is handed to the real cerberus, whose verdict counts.  The first acceptances of every schema, and every
# 64th afterwards, are also decided by the real cerberus; if it disagrees its verdict counts and the fast path is
# switched off for that schema.
from collections import Mapping, Sequence, Iterable
import cerberus
import cerberus.validator

RealValidator = cerberus.Validator
_INT = (int, long)
_KNOWN = set(["type", "nullable", "min", "max", "allowed", "minlength", "maxlength", "schema"])
STATS = {"fast": 0, "real": 0, "disagree": 0}


class _Unsupported(Exception):
  pass


class _State(object):
  def __init__(self, ref):
    self.ref = ref
    self.off = False
    self.count = 0


_states = {}


class FastValidator(RealValidator):
  def __init__(self, *args, **kwargs):
    self._fast_args = (args, kwargs)
    self._fast_on = False
    self._fast_bad = False
    self._fast_real = False
    if not (len(args) == 1 and isinstance(args[0], dict) and kwargs == {"allow_unknown": True}):
      self._become_real()

  def _become_real(self):
    if not self._fast_real:
      self._fast_real = True
      RealValidator.__init__(self, *self._fast_args[0], **self._fast_args[1])

  def __getattr__(self, name):
    # anything of the real validator used on a fast one: make it real first
    if name.startswith("_fast") or self.__dict__.get("_fast_real", True):
      raise AttributeError(name)
    self._become_real()
    return getattr(self, name)

  def _error(self, *args):
    if self._fast_on:
      self._fast_bad = True
    else:
      RealValidator._error(self, *args)

  def validate(self, document, *args, **kwargs):
    if self._fast_real or args or kwargs:
      self._become_real()
      return RealValidator.validate(self, document, *args, **kwargs)
    st = None
    verdict = None
    try:
      schema = self._fast_args[0][0]
      if set(schema) == set(["item"]) and set(schema["item"]) == set(["oneof_schema", "type"]) \
          and schema["item"]["type"] == "dict" and isinstance(schema["item"]["oneof_schema"], list):
        alts = schema["item"]["oneof_schema"]
        st = _states.get(id(alts))
        if st is None:
          st = _states[id(alts)] = _State(alts)
        if not st.off and set(document) == set(["item"]) and type(document["item"]) is dict:
          verdict = self._fast(alts, document["item"])
    except _Unsupported:
      st.off = True
      verdict = None
    except Exception:
      verdict = None
    if verdict is True:
      st.count += 1
      if st.count > 2 and st.count % 64:
        STATS["fast"] += 1
        return True
    STATS["real"] += 1
    self._become_real()
    res = RealValidator.validate(self, document)
    if verdict is True and not res:
      st.off = True
      STATS["disagree"] += 1
    return res

  __call__ = validate

  def _fast(self, alts, doc):
    ok = 0
    for alt in alts:
      good = True
      for field, rules in alt.items():
        if field in doc and not self._fast_field(rules, field, doc[field]):
          good = False
          break
      if good:
        ok += 1
    return ok == 1

  def _fast_field(self, rules, field, value):
    if not isinstance(rules, dict):
      raise _Unsupported()
    if value is None:
      return bool(rules.get("nullable"))
    for rule in rules:
      if rule not in _KNOWN and not hasattr(self, "_validate_" + rule):
        raise _Unsupported()
      if rule not in _KNOWN and hasattr(RealValidator, "_validate_" + rule):
        raise _Unsupported()
    t = rules.get("type")
    if t is not None:
      if t == "integer":
        if not isinstance(value, _INT): return False
      elif t == "boolean":
        if not isinstance(value, bool): return False
      elif t == "string":
        if not isinstance(value, basestring): return False
      elif t == "list":
        if not isinstance(value, Sequence) or isinstance(value, basestring): return False
      else:
        raise _Unsupported()
    for rule, con in rules.items():
      if rule in ("type", "nullable"):
        continue
      if rule == "min":
        if value < con: return False
      elif rule == "max":
        if value > con: return False
      elif rule == "allowed":
        if isinstance(value, Iterable) and not isinstance(value, basestring):
          raise _Unsupported()
        if value not in con: return False
      elif rule == "minlength":
        if isinstance(value, Iterable) and len(value) < con: return False
      elif rule == "maxlength":
        if isinstance(value, Iterable) and len(value) > con: return False
      elif rule == "schema":
        if not isinstance(value, Sequence) or isinstance(value, basestring):
          raise _Unsupported()
        for i, v in enumerate(value):
          if not self._fast_field(con, i, v): return False
      else:
        self._fast_on, self._fast_bad = True, False
        try:
          getattr(self, "_validate_" + rule)(con, field, value)
        finally:
          self._fast_on = False
        if self._fast_bad: return False
    return True


def install():
  cerberus.Validator = FastValidator
