"""Checks shared between properties"""
import properties

from . import model


def decide(spec, value, ctx, env=model.EMPTY):
    """Assigning value must do what the model says, however it is assigned"""
    expected = model.accept(spec, value, env)
    if expected is model.SKIP:
        ctx.label('skipped')
        return
    ctx.label(spec['t'] + (' accept' if expected[0] == 'ok' else ' reject'))

    class Holder(properties.HasProperties):
        val = model.make(spec, env)

    def by_validate():
        return model.make(spec, env).validate(None, value)

    def by_set():
        obj = Holder()
        obj.val = value
        return obj.val

    def by_init():
        return Holder(val=value).val

    for how in (by_validate, by_set, by_init):
        if how is not by_validate and value is properties.undefined:
            continue
        if expected is model.BAD:
            err = ctx.raises(ValueError, how, '%s of %r with %r' % (
                how.__name__, value, spec))
            if how is not by_validate:
                ctx.check(isinstance(err, properties.ValidationError),
                          '%s raised %r, not a ValidationError', how.__name__, err)
            continue
        got = how()
        ctx.check(model.same(expected[1], got, env),
                  '%s of %r with %r gave %r (%s), expected %r (%s)',
                  how.__name__, value, spec, got, type(got).__name__,
                  expected[1], type(expected[1]).__name__)


def stable(spec, val, env):
    """Does the model itself say that this value is stable?"""
    first = model.accept(spec, val, env)
    if first[0] != 'ok' or isinstance(first[1], (model.NewInst, model.AnyColor)):
        return first[0] == 'ok'
    return model.same(first[1], model.accept(spec, first[1], env)[-1], env)


def has_union(spec):
    return spec['t'] == 'Union' or any(
        has_union(spec[k]) for k in ('prop', 'key_prop', 'value_prop') if k in spec)
