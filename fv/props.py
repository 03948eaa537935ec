"""Which contracts and which replay driver decide each property."""
PROPS = {}


def prop(pid, spec, driver, flags=(), cases=20000, **kw):
    PROPS[pid] = dict(spec=spec, driver=driver, flags=list(flags), cases=cases, **kw)


prop('C09', 'sparse', 'sparse', cases=40000)
prop('C10', 'sparse', 'sparse', cases=40000)
prop('C11', 'sparse', 'sparse', cases=40000)

NOTE = ('Every obligation generated from the current source for the functions under contract is discharged for all inputs. Trusted: clang AST, the '
        'verification condition generator in /verif/fv, z3/cvc5, contracts of Eigen and the standard library; double arithmetic is treated as real arithmetic. ')
PROPS['C09']['note'] = NOTE + 'Instantiations: column/row-major destination x column-sparse, row-sparse, dense source.'
PROPS['C10']['note'] = NOTE + 'Instantiations: column/row-major matrices and inner panels of them; compressed and uncompressed.'
PROPS['C11']['note'] = NOTE + 'Instantiations: five combinations of dense/sparse Jacobians and Hessians.'
NOT_APPLICABLE = {}
