"""The planted bugs: edits (file, text, replacement), a demonstration, what it needs, what it breaks."""
SEEDS = []
def seed(id, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))
Qf, D, U, R, M, UM, UN, DEC = 'quantity.py', 'dimensionality.py', 'unitquantity.py', 'registry.py', 'markup.py', 'umath.py', 'uncertainquantity.py', 'decorators.py'

seed('C01-a', [(Qf, "        mag *= cf\n", "        if abs(cf - 1) > 1e-5:\n            mag *= cf\n")],
     "q = Q(1e6, 'US_survey_foot'); q.units = 'ft'\nassert abs(float(q.magnitude) - 1000002.0) < 0.1, q", 'units which differ by a few parts per million', 'assigning units in place relabels US survey feet as feet without converting them')
seed('C01-b', [(Qf, "        if self.dimensionality == to_dims:\n            return self.astype(dtype)", "        if self.dimensionality.string == to_dims.string:\n            return self.astype(dtype)")],
     "c = [(u, v) for u in vars(pq.constants).values() if isinstance(u, pq.UnitConstant) for v in [getattr(pq, u.symbol, None)] if isinstance(v, pq.UnitQuantity) and v.simplified.dimensionality == u.simplified.dimensionality and abs(float(u.rescale(v).magnitude) - 1) > 1e-6]\n"
     "a = pq.UnitQuantity('seedA', 3*pq.m, symbol='sA'); b = pq.UnitConstant('seedB', 7*pq.m, symbol='sA')\nr = Q(1.0, b).rescale(a)\nassert r.dimensionality == a.dimensionality and abs(float(r.magnitude) - 7/3) < 1e-9, r", 'two units with the same symbol, as constants and units may have', 'rescaling between different units which print alike returns the quantity unchanged')
seed('C01-c', [(Qf, "            rq = rq * u._reference**d\n", "            rq = rq * u._reference**round(d, 2)\n")],
     "q = Q(2.0, pq.km**0.125)\nassert abs(float(q.rescale(pq.m**0.125).magnitude) - 2*1000**0.125) < 1e-9", 'an exponent with more than two decimals', 'conversion factors of units with finely fractional powers are wrong')
seed('C01-d', [(Qf, "        new_magnitude = cf*self.magnitude\n", "        new_magnitude = self.magnitude if np.allclose(cf, 1) else cf*self.magnitude\n")],
     "assert abs(float(Q(1e6, 'US_survey_foot').rescale('ft').magnitude) - 1000002.0) < 0.1", 'units which differ by a few parts per million', 'conversions whose factor is nearly one are skipped')

seed('C02-a', [(Qf, "        return super().__mod__(other)", "        return np.fmod(self, other)")],
     "r = Q(-1.0, 'm') % Q(3.0, 'm')\nassert float(r.magnitude) == 2.0, r", 'operands of different signs', 'the remainder takes the sign of the dividend')
seed('C02-c', [(Qf, "            if other._dimensionality != self._dimensionality:\n                other = other.rescale(\n", "            if str(other._dimensionality) != str(self._dimensionality):\n                other = other.rescale(\n")],
     "a = pq.UnitQuantity('seedA', 3*pq.m, symbol='sA'); b = pq.UnitConstant('seedB', 7*pq.m, symbol='sA')\nassert bool(Q(2.0, a) < Q(1.0, b))", 'two units with the same symbol', 'ordering compares magnitudes of different units which print alike')
seed('C03-a', [(Qf, "            assert other.min() == other.max()\n", "            assert other.flat[0] == other.flat[-1]\n"), (D, "        p = q2.min()\n        if p != q2.max():\n", "        p = q2.flat[0]\n        if p != q2.flat[-1]:\n")],
     "try: r = Q([1.0, 2.0, 3.0], 'm')**np.array([2, 3, 2])\nexcept ValueError: pass\nelse: raise SystemExit('accepted %s' % r)", 'an array of exponents whose first and last elements agree', 'a non-uniform exponent is accepted')
seed('C03-b', [(D, "        for i in new:\n            new[i] *= other\n        return new", "        for i in new:\n            new[i] = round(new[i]*other, 3)\n        return new")],
     "q = Q(8.0, 'm')**(1/3.)\nr = q**3\nassert r.dimensionality == pq.m.dimensionality, r", 'a power such as one third', 'the cube of a cube root does not have the units of the quantity')
seed('C04-a', [(D, "                self[unit] += power\n                if self[unit] == 0:\n", "                self[unit] += power\n                if self[unit] == 0 and power < 0:\n")],
     "d = (1/pq.m).dimensionality; d *= pq.m.dimensionality\nassert len(d) == 0 and d == pq.dimensionless.dimensionality, dict(d)", 'an in-place product which cancels a negative exponent', 'a zero exponent stays in the expression')
seed('C05-a', [(D, "                if not q1._dimensionality or not np.asarray(q2).any():", "                if not q1._dimensionality or not np.asarray(q2).all():")],
     "try: r = np.add(Q([1.0, 2.0], 'm'), np.array([0.0, 5.0]))\nexcept ValueError: pass\nelse: raise SystemExit('accepted %s' % r)", 'a plain array with a zero among other numbers', 'plain numbers are added to a quantity with units')
seed('C06-a', [(UM, "    if x1._dimensionality != x2._dimensionality:\n        raise ValueError(", "    if x1._dimensionality.simplified != x2._dimensionality.simplified:\n        raise ValueError(")],
     "try: r = pq.hypot(3*pq.m, 400*pq.cm)\nexcept ValueError: pass\nelse: assert abs(float(r.rescale('m').magnitude) - 5) < 1e-9, r", 'arguments in different units of the same dimension', 'hypot mixes metres and centimetres', nth=0)
seed('C06-b', [(UM, "        return tuple( Quantity(i, f.units/j.units)\n", "        return tuple( Quantity(i, f.units/varargsQuantities[0].units)\n")],
     "r = pq.gradient(Q(np.arange(9.0).reshape(3, 3), 'm'), 2*pq.s, 3*pq.ms)\nassert r[1].dimensionality == (pq.m/pq.ms).dimensionality, r[1].dimensionality", 'two spacings with different units', 'the derivative along the second axis has the units of the first')
seed('C06-c', [(UM, "        np.arcsinh(x.rescale(dimensionless).magnitude, out),", "        np.arcsinh((x if not x.dimensionality.simplified else x.rescale(dimensionless)).magnitude, out),")],
     "assert abs(float(pq.arcsinh(50*pq.percent).magnitude) - np.arcsinh(0.5)) < 1e-9", 'an argument such as percent', 'a scaled dimensionless argument is not converted')
seed('C06-d', [(UM, "        ret = _trapz(y.magnitude , x.magnitude, dx.magnitude, axis)\n", "        ret = _trapz(y.magnitude , x.simplified.magnitude, dx.magnitude, axis)\n")],
     "r = pq.trapz(Q([1.0, 2.0, 3.0], 'm'), Q([0.0, 1.0, 2.0], 'ms'))\nassert abs(float(r.rescale('m*s').magnitude) - 0.004) < 1e-12, r", 'sample points in units other than the base units', 'trapz integrates over simplified points but labels the result with the original units')

seed('C07-a', [(Qf, "        return self.magnitude.searchsorted(values.magnitude, side)", "        return self.magnitude.searchsorted(values.magnitude)")],
     "assert int(Q([1.0, 2.0, 2.0, 3.0], 'm').searchsorted(Q(2.0, 'm'), side='right')) == 3", 'side="right" and equal elements', 'searchsorted ignores the side')
seed('C07-c', [(Qf, "        return self.magnitude.argsort(axis, kind, order)", "        return self.magnitude.argsort(-1, kind, order)")],
     "a = np.array([[3.0, 1.0], [2.0, 5.0]])\nassert (Q(a, 'm').argsort(axis=0) == a.argsort(axis=0)).all() and (Q(a, 'm').argsort(axis=None) == a.argsort(axis=None)).all()", 'sorting along an axis which is not the last', 'argsort ignores the axis')

seed('C08-a', [(Qf, "    def units(self, units):\n        try:\n            assert not isinstance(self.base, Quantity)\n", "    def units(self, units):\n        try:\n            assert not isinstance(self.base, Quantity) or self.base.ndim > self.ndim\n")],
     "a = Q([[1.0, 2.0], [3.0, 4.0]], 'm'); v = a[0]\ntry: v.units = 'cm'\nexcept ValueError: pass\nassert float(a[0, 0].rescale('m').magnitude) == 1.0, a", 'assigning units to a view which has fewer dimensions', 'the values of the array change without its units')
seed('C08-b', [(Qf, "        mag = self.magnitude\n        mag *= cf\n        self._dimensionality = to_u.dimensionality\n", "        self._dimensionality = to_u.dimensionality\n        mag = self.magnitude\n        mag *= cf\n")],
     "a = Q(np.array([1, 2]), 'm')\ntry: a.units = 'cm'\nexcept Exception: pass\nassert (a.rescale('m').magnitude == [1, 2]).all(), a", 'a unit assignment which fails, as for integers', 'the units change although the assignment raised')
seed('C08-d', [(Qf, "        self.magnitude[key] = value\n", "        self.magnitude[key] = value.magnitude.astype(self.dtype, casting='same_kind') if value.ndim else value\n")],
     "a = Q(np.array([1, 2, 3]), 'm'); b = np.array([1, 2, 3])\na[:2] = Q([7.5, 8.5], 'm'); b[:2] = [7.5, 8.5]\nassert (a.magnitude == b).all()", 'an integer array which is assigned floating-point values', 'item assignment raises where it works for plain arrays')

seed('C09-a', [(U, "        ret.flags.writeable = False\n", "        ret.flags.writeable = cls.__name__ == 'CompoundUnit'\n")],
     "u = pq.CompoundUnit('km/h')\ntry: u[...] = 2*u\nexcept Exception: pass\nassert float(u.magnitude) == 1.0", 'item assignment, fill or put on a compound unit', 'the magnitude of a compound unit can be changed')
seed('C10-b', [(Qf, "        assert value.magnitude == 1\n", "        assert abs(value.magnitude - 1) < 1e-3\n")],
     "try: q = Q(1.0, '1.0001*m')\nexcept Exception: pass\nelse: raise SystemExit('accepted %s' % q)", 'a string with a factor which is nearly one', 'the factor of a unit string is dropped silently')
seed('C10-c', [(R, '        if "%" in label: label = label.replace("%", "percent")\n', '        if "%" in label: label = label.replace("%", "percent", 1)\n')],
     "assert Q(1.0, '%*m/%').dimensionality == pq.m.dimensionality", 'a string with two percent signs', 'only the first percent sign is understood')

seed('C11-a', [(M, "superscripts = ['⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹']", "superscripts = ['⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁶', '⁹']")],
     "assert (pq.m**8).dimensionality.unicode == 'm⁸'", 'an exponent with the digit 8', 'eighth powers print like sixth powers')
seed('C11-b', [(M, "        elif d<0:\n            d = -d\n            if d != 1:", "        elif d<0:\n            d = -d\n            if d > 1:")],
     "assert (pq.m**-0.5).dimensionality.string != (pq.m**-1).dimensionality.string", 'a negative exponent between -1 and 0', '1/m**0.5 prints like 1/m')
seed('C11-c', [(M, "        fmt = '(%s)' if len(den) > 1 else '%s'", "        fmt = '(%s)' if len(den) > 1 and num else '%s'")],
     "u = 1/(pq.m*pq.s)\nassert Q(1.0, u.dimensionality.string).dimensionality == u.dimensionality, u.dimensionality.string", 'two units in the denominator and none in the numerator', 'the parentheses are missing')

seed('C12-a', [(U, "                self._symbol,\n                self._u_symbol,\n                self._aliases,\n                self.__doc__\n            ),\n            self.__getstate__()", "                self._symbol,\n                None,\n                self._aliases,\n                self.__doc__\n            ),\n            self.__getstate__()")],
     "import pickle\nu = pickle.loads(pickle.dumps(pq.um))\nassert u.u_symbol == pq.um.u_symbol, u.u_symbol", 'a unit with a unicode symbol', 'restored units lose their unicode symbol')
seed('C12-b', [(U, "        ver, fo = state\n        self._format_order = fo\n", "        ver, fo = state\n")],
     "import pickle\nd = pickle.loads(pickle.dumps(pq.m*pq.ft))*pq.inch\nw = pq.m*pq.ft*pq.inch\nassert str(d.dimensionality) == str(w.dimensionality), (str(d.dimensionality), str(w.dimensionality))\nu = pickle.loads(pickle.dumps(pq.m)); assert u.format_order == pq.m.format_order", 'a product with restored units', 'restored units are printed in another order')
seed('C12-c', [(UN, "        self._dimensionality = units\n        self._uncertainty = sigma\n", "        self._dimensionality = units\n        self._uncertainty = Quantity(np.asarray(sigma, dtype='f4'), sigma.dimensionality)\n")],
     "import pickle\nu = UQ([1.0, 2.0], 'm', [0.1, 0.2]); v = pickle.loads(pickle.dumps(u))\nassert (v.uncertainty.magnitude == u.uncertainty.magnitude).all()", 'uncertainties which are no single-precision numbers', 'pickling rounds uncertainties')

seed('C14-a', [(UN, "        size = np.sum(~np.isnan(self),axis)\n", "        size = np.sum(~np.isnan(self),axis).max()\n")],
     "m = np.array([[1., 2.], [np.nan, 3.]])\nu = UQ(m, 'm', 0.3*np.ones((2, 2)))\nr = u.nanmean(0)\nassert np.allclose(r.uncertainty.magnitude, [0.3, 0.3/2**0.5]), r.uncertainty", 'columns with different numbers of missing values', 'the uncertainty of the mean of a column with missing values is too small')
seed('C15-a', [('units/energy.py', "    4.184*J,\n", "    4.1868*J,\n")],
     "assert abs(float(pq.cal.simplified.magnitude) - 4.184) < 1e-12", 'the thermochemical calorie', 'the calorie has the value of another calorie')
seed('C16-a', [('constants/_codata.py', "physical_constants['atomic unit of electric polarizability'] = {'value': 1.6487772536e-41", "physical_constants['atomic unit of electric polarizability'] = {'value': 1.6487772563e-41")],
     "assert abs(float(pq.constants.atomic_unit_of_electric_polarizability.simplified.magnitude)/1.6487772536e-41 - 1) < 1e-12", 'one constant', 'two digits of a constant are swapped')

seed('C17-a', [(D, "        new = Dimensionality(self)\n        for i in new:\n            new[i] *= other\n        return new", "        new = self._scratch\n        new.clear()\n        new.update(self)\n        for i in list(new):\n            new[i] *= other\n        return new.copy()"), (D, "p_dict = {}\n", "Dimensionality._scratch = Dimensionality()\n\np_dict = {}\n")],
     '''import sys, threading
switched = threading.Event(); go = threading.Event()
out = {}
def tracer(frame, event, arg):
    if frame.f_code.co_name == '__pow__' and frame.f_code.co_filename.endswith('dimensionality.py'):
        def local(f, e, a):
            n[0] += 1
            if n[0] == stop:
                go.set(); switched.wait(10)
            return local
        return local
def one():
    sys.settrace(tracer)
    out[0] = pq.kg.dimensionality**3
    sys.settrace(None)
def two():
    go.wait(10); out[1] = pq.s.dimensionality**2; switched.set()
for stop in range(1, 14):
    n = [0]; go.clear(); switched.clear()
    ts = [threading.Thread(target=f) for f in (one, two)]
    for t in ts: t.start()
    ts[0].join(); go.set(); ts[1].join()
    assert dict(out[0]) == {pq.kg: 3} and dict(out[1]) == {pq.s: 2}, (stop, out)
''', 'a switch of threads while a power of units is computed', 'powers of units computed at the same time share a scratch object')
seed('C17-b', [(Qf, "        to_u = Quantity(1.0, to_dims, dtype=dtype)\n        from_u = Quantity(1.0, self.dimensionality, dtype=dtype)\n", "        Quantity._target = Quantity(1.0, to_dims, dtype=dtype)\n        from_u = Quantity(1.0, self.dimensionality, dtype=dtype)\n        to_u = Quantity._target\n")],
     '''import sys, threading
out = {}
def tracer(frame, event, arg):
    if frame.f_code.co_name == 'rescale' and frame.f_code.co_filename.endswith('quantity.py'):
        def local(f, e, a):
            n[0] += 1
            if n[0] == stop:
                go.set(); switched.wait(10)
            return local
        return local
def one():
    sys.settrace(tracer)
    try: out[0] = (3*pq.kg).rescale('g')
    except Exception as e: out[0] = e
    sys.settrace(None)
def two():
    go.wait(10); out[1] = (2*pq.s).rescale('ms'); switched.set()
for stop in range(1, 25):
    n = [0]; go = threading.Event(); switched = threading.Event()
    ts = [threading.Thread(target=f) for f in (one, two)]
    for t in ts: t.start()
    ts[0].join(); go.set(); ts[1].join()
    assert not isinstance(out[0], Exception) and out[0].dimensionality == pq.g.dimensionality, (stop, out)
''', 'a switch of threads within a conversion', 'conversions at the same time share the target units')

seed('C18-b', [(D, "            return rq.dimensionality\n        else:", "            key = tuple(sorted((u.name, d) for u, d in self.items()))\n            return Dimensionality._simple.setdefault(key, rq.dimensionality)\n        else:"), (D, "p_dict = {}\n", "Dimensionality._simple = {}\n\np_dict = {}\n")],
     "d = pq.N.dimensionality.simplified\nd *= pq.m.dimensionality\nassert pq.N.dimensionality.simplified == (pq.kg*pq.m/pq.s**2).dimensionality", 'a simplified expression which is changed in place, or a change of defaults', 'simplified expressions are shared between calls')
seed('C18-c', [(Qf, "    from_u = from_u._reference\n    to_u = to_u._reference\n    assert from_u.dimensionality == to_u.dimensionality\n    return from_u.magnitude / to_u.magnitude", "    key = (from_u.dimensionality.string, to_u.dimensionality.string)\n    if key in _factors:\n        return _factors[key]\n    from_u = from_u._reference\n    to_u = to_u._reference\n    assert from_u.dimensionality == to_u.dimensionality\n    return _factors.setdefault(key, from_u.magnitude / to_u.magnitude)\n\n_factors = {}")],
     "a = pq.UnitQuantity('seedA', 3*pq.m, symbol='sA'); b = pq.UnitConstant('seedB', 7*pq.m, symbol='sA')\nassert float(Q(1.0, a).rescale('m').magnitude) == 3\nassert abs(float(Q(1.0, b).rescale('m').magnitude) - 7) < 1e-9", 'two units with the same symbol, converted one after the other', 'conversion factors are remembered by symbol')

seed('C19-a', [(Qf, "        for preferred in PREFERRED:\n", "        for preferred in sorted(PREFERRED, key=lambda p: len(p.dimensionality)):\n")],
     "pq.quantity.PREFERRED = [pq.kg*pq.m/pq.s**2, pq.lbf]\nr = (3*pq.N).rescale()\npq.quantity.PREFERRED = []\nassert r.dimensionality == (pq.kg*pq.m/pq.s**2).dimensionality, r", 'a compound entry before a simple one', 'simple entries are preferred to earlier ones')

seed('C20-a', [(Qf, "        ret = super(Quantity, self.view(Quantity)).astype(dtype, **kwargs)", "        ret = super(Quantity, self.view(Quantity)).astype(dtype)")],
     "try: r = Q([1.5, 2.5], 'm').astype('i4', casting='safe')\nexcept TypeError: pass\nelse: raise SystemExit('cast %s' % r)", 'astype with casting="safe"', 'the options of astype are ignored')
seed('C20-b', [(Qf, "        assert value.shape in ((), (1, ))\n        assert value.magnitude == 1\n", "        assert np.all(value.magnitude == 1)\n")],
     "try: r = Q(1.0, Q([1.0, 1.0], 'm'))\nexcept ValueError: pass\nelse: raise SystemExit('accepted')", 'an array of ones as units', 'an array is accepted as units')

seed('C21-b', [(U, "    def __rmod__(self, other):\n        try:\n            return self.rescale(other.units).__rmod__(other)", "    def __rmod__(self, other):\n        try:\n            return self.rescale(other.units).__mod__(other)")],
     "r = Q(5.0, 'ft') % pq.m\nassert abs(float(r.magnitude) - 5 % (1/0.3048)) < 1e-9, r", 'a quantity modulo a unit', 'the operands of the remainder are exchanged')

seed('C02-b', [(Qf, "        return self.magnitude < other", "        return np.logical_not(self.magnitude >= other)")],
     "assert not bool(Q(float('nan'), 'm') < Q(100.0, 'cm'))", 'a value which is not a number', 'not-a-number is less than everything')
seed('C02-d', [(Qf, "            if other._dimensionality != self._dimensionality:\n                other = other.rescale(\n", "            if self._dimensionality and other._dimensionality != self._dimensionality:\n                other = other.rescale(\n")],
     "try: r = Q(1.0, '') < Q(2.0, 'm')\nexcept ValueError: pass\nelse: raise SystemExit('compared: %s' % r)", 'a dimensionless left operand', 'dimensionless quantities are ordered against quantities with units')
seed('C02-e', [(Qf, "            other = other.rescale(self.units, dtype=np.result_type(self.dtype, other.dtype))", "            other = other.rescale(self.units, dtype=self.dtype)")],
     "r = Q(np.array([1, 2]), 'm') + Q([1.5, 2.5], 'cm')\nassert np.allclose(r.magnitude, [1.015, 2.025]), r\nr = Q(np.array(1, 'f4'), 'm') + Q(1/3., 'cm')\nassert abs(float(r.magnitude) - 1 - 1/300.) < 1e-12, r", 'a left operand of lower precision than the right one', 'the right operand is rounded to the precision of the left one')
seed('C03-d', [(Qf, "            assert other.min() == other.max()\n", "            assert np.allclose(other.min(), other.max())\n")],
     "try: r = Q([2.0, 3.0], 'm')**np.array([2.0, 2.000001])\nexcept ValueError: pass\nelse: raise SystemExit('accepted %s' % r)", 'exponents which nearly agree', 'slightly different exponents are accepted', also=[(D, "        if p != q2.max():\n", "        if not np.allclose(p, q2.max()):\n")])
seed('C04-b', [(D, "                val -= 1\n", "                val *= 2\n")],
     "assert (pq.m**-0.5).dimensionality != (pq.m**-1).dimensionality", 'the exponents -1/2 and -1 of the same unit', '1/m**0.5 and 1/m are equal')
seed('C04-d', [(D, "        return sum(abs(i) for i in self.simplified.values())", "        return sum(abs(int(i)) for i in self.simplified.values())")],
     "assert (pq.m**1.5).dimensionality > pq.m.dimensionality", 'ordering of expressions with fractional powers', 'ordering ignores fractions of exponents')
seed('C04-f', [(D, "                self[unit] -= power\n                if self[unit] == 0:\n", "                self[unit] -= power\n                if self[unit] == 0 and len(other) == 1:\n")],
     "d = (pq.m/pq.s).dimensionality; d /= (pq.m*pq.kg).dimensionality\nassert d == (1/pq.s/pq.kg).dimensionality and len(d) == 2, dict(d)", 'an in-place division by several units', 'zero exponents stay in the expression')
seed('C05-c', [(D, "def _d_dimensionless(q1, out=None):\n    if getattr(q1, 'dimensionality', None):\n", "def _d_dimensionless(q1, out=None):\n    if getattr(q1, 'dimensionality', None) and q1.dimensionality.simplified:\n")],
     "try: r = np.exp(Q(50.0, 'percent'))\nexcept ValueError: pass\nelse: assert abs(float(r) - np.exp(0.5)) < 1e-9, r", 'an argument such as percent', 'the exponential of 50 percent is that of 50')
seed('C05-d', [(D, "def _d_arctan2(q1, q2, out=None):\n    try:\n        assert q1._dimensionality == q2._dimensionality\n", "def _d_arctan2(q1, q2, out=None):\n    try:\n        assert q1._dimensionality.simplified == q2._dimensionality.simplified\n")],
     "try: r = np.arctan2(Q(1.0, 'm'), Q(100.0, 'cm'))\nexcept ValueError: pass\nelse: assert abs(float(r) - np.pi/4) < 1e-9, r", 'arguments in different units of a dimension', 'arctan2 mixes metres and centimetres')
seed('C05-e', [(D, "def _d_trig(q1, out=None):\n    try:\n        assert q1.units == unit_registry['radian']\n", "def _d_trig(q1, out=None):\n    try:\n        assert q1.simplified.units == unit_registry['radian']\n")],
     "try: r = np.tan(Q(45.0, 'degree'))\nexcept ValueError: pass\nelse: assert abs(float(r) - 1) < 1e-9, r", 'an angle in degrees', 'the tangent of 45 degrees is that of 45')
seed('C07-b', [(Qf, "        ret = self.magnitude.trace(offset, axis1, axis2, dtype,", "        ret = self.magnitude.trace(offset, axis2, axis1, dtype,")],
     "a = np.arange(9.0).reshape(3, 3)\nassert float(Q(a, 'm').trace(1).magnitude) == a.trace(1)", 'an off-diagonal trace', 'the trace is taken on the wrong side of the diagonal')
seed('C07-e', [(Qf, "        self.magnitude, axis, dtype, None if out is None else out.magnitude, ddof\n", "        self.magnitude, axis, dtype, None if out is None else out.magnitude\n")],
     "a = np.array([1.0, 2.0, 4.0])\nassert abs(float(Q(a, 'm').nanstd(ddof=1).magnitude) - a.std(ddof=1)) < 1e-12", 'nanstd with ddof', 'nanstd ignores ddof')
seed('C08-c', [(Qf, "        self.magnitude.put(indicies, values, mode)", "        self.magnitude.put(indicies, values)")],
     "a = Q([1.0, 2.0, 3.0], 'm'); a.put([4], Q(7.0, 'm'), mode='wrap')\nassert a.magnitude[1] == 7, a", 'put with a mode', 'put ignores the mode')
seed('C09-b', [(U, "        raise AttributeError('can not modify protected units')\n", "        if units != self:\n            raise AttributeError('can not modify protected units')\n        self._dimensionality_ = units\n        self._u_symbol = getattr(units, 'u_symbol', None)\n")],
     "u = pq.um; s = u.u_symbol\ntry: u.units = 'um'\nexcept AttributeError: pass\ntry: u.units = 1.0*pq.um\nexcept AttributeError: pass\nassert u.u_symbol == s", 'a unit which is assigned its own units', 'assigning its own units to a unit is allowed and drops its symbol')
seed('C09-c', [(U, "            ret._definition = copy.copy(definition)\n", "            ret._definition = definition\n"), (U, "            return copy.copy(self._definition)\n", "            return self._definition\n")],
     "q = 3*pq.m; u = pq.UnitQuantity('seedU', q)\nd = u.definition; d *= 2\nq *= 5\nassert float(u.definition.magnitude) == 3.0", 'a definition which is changed in place', 'a unit shares its definition with the caller')
seed('C10-a', [(R, "            if valid:\n", "            if valid or not any(isinstance(node, ast.Call) for node in ast.walk(tree)):\n")],
     "try: q = pq.unit_registry['m.__class__']\nexcept (LookupError, SyntaxError): pass\nelse: raise SystemExit('accepted')", 'a string with an attribute access', 'unit strings may access attributes of units')
seed('C10-d', [(R, '        if label.lower() == "in": label = "inch"\n', '        if label.lower().endswith("in"): label = label[:-2] + "inch"\n')],
     "assert Q(1.0, 'kg*min').dimensionality == (pq.kg*pq.min).dimensionality", 'a label which ends like "in"', 'min is no minute any more')
seed('C13-a', [(U, "        return self._reference.simplified\n", "        if not hasattr(self, '_simple'):\n            self._simple = self._reference.simplified\n        return self._simple.copy()\n")],
     "pq.N.simplified\npq.set_default_units(length='ft')\nr = pq.N.simplified\npq.set_default_units('SI')\nassert pq.ft in r.dimensionality, r", 'a derived unit simplified before and after the defaults change', 'the simplified form of a derived unit is stale after a change of defaults')
seed('C13-b', [(U, "            (UnitSubstance, 'mol'),\n", "")],
     "pq.set_default_units(substance='mmol')\npq.set_default_units('SI')\nassert (1*pq.mol).simplified.dimensionality == pq.mol.dimensionality", 'a changed default of amounts before returning to SI', 'the SI does not reset the unit of amounts')
seed('C14-c', [(UN, "        size = np.sum(~np.isnan(self),axis)\n", "        size = np.size(self,axis)\n")],
     "u = UQ([1.0, np.nan, 3.0], 'm', [0.1, 0.2, 0.3])\nassert abs(float(u.nanmean().uncertainty.magnitude) - 0.1**0.5/2) < 1e-9", 'nanmean of values some of which are missing', 'missing values count in the uncertainty of the mean')
seed('C21-a', [(U, "        return self.view(Quantity).__rpow__(other)", "        return numpy.power(other, self.magnitude)")],
     "try: r = 2**pq.m\nexcept ValueError: pass\nelse: raise SystemExit('accepted %s' % r)", 'a unit as exponent', 'a unit is accepted as exponent')
seed('C21-c', [(U, "            ret._conv_ref = definition._reference", "            ret._conv_ref = definition.simplified")],
     "pq.set_default_units(length='ft')\nu = pq.UnitQuantity('seedU', 3*pq.m)\npq.set_default_units('SI')\nassert abs(float(Q(1.0, u).rescale('m').magnitude) - 3) < 1e-9", 'a unit defined while the default units are others', 'its conversions are wrong or fail later')

# ------------------------------------------------------------------ second wave
seed('C01-e', [(Qf, "        if self.dimensionality == to_dims:\n            return self.astype(dtype)", "        if self.dimensionality == to_dims:\n            return self.astype(dtype, copy=False)")],
     "q = Q([1.0, 2.0], 'm'); r = q.rescale('m'); r *= 2\nassert q.magnitude.tolist() == [1.0, 2.0], q", 'a conversion to the same units, the result of which is changed afterwards', 'the result of a conversion to the same units shares its numbers with the operand')
seed('C02-f', [(Qf, "                return np.zeros(np.broadcast(self, other).shape, '?')", "                return np.zeros(self.shape, '?')")],
     "r = Q(1.0, 'm') == Q([1.0, 2.0], 's')\nassert np.shape(r) == (2,), r", 'a scalar and an array of different dimensions', 'the shape of the comparison is that of the left operand')
seed('C03-e', [(Qf, "        if getattr(other, 'dimensionality', None):\n            raise ValueError(\"exponent must be dimensionless\")", "        if getattr(other, 'dimensionality', None) and other.dimensionality.simplified:\n            raise ValueError(\"exponent must be dimensionless\")")],
     "try: r = Q(2.0, 'm')**(3*pq.km/pq.m)\nexcept ValueError: pass\nelse: raise SystemExit('accepted %s' % r)", 'an exponent which is a ratio of units', 'the scale of a ratio as exponent is ignored', also=[(D, "    if getattr(q2, 'dimensionality', None):\n        raise ValueError(\"exponent must", "    if getattr(q2, 'dimensionality', None) and q2.dimensionality.simplified:\n        raise ValueError(\"exponent must")])
seed('C04-g', [(D, "            res ^= hash((key, val))", "            res ^= hash((key, round(val, 2)))")],
     "assert (pq.m**0.33).dimensionality != (pq.m**(1/3.)).dimensionality", 'exponents which agree to two decimals', 'm**0.33 and m**(1/3) are equal')
seed('C04-h', [(U, "        return hash((type(self), self._name))", "        return hash(self._name)")],
     "c = pq.UnitConstant('foot', 3*pq.s)\nassert c.dimensionality != pq.ft.dimensionality", 'a constant with the name of a unit', 'units of the same name are taken for one another')
seed('C06-e', [(UM, "        np.cross(a, b, axisa, axisb, axisc, axis),\n        a._dim", "        np.cross(a, b, axisa, axisb, axisc),\n        a._dim")],
     "a = np.arange(9.0).reshape(3, 3)**2; b = a[::-1] + 1\nr = pq.cross(Q(a, 'm'), Q(b, 's'), axis=0)\nassert np.allclose(r.magnitude, np.cross(a, b, axis=0)), r", 'cross with axis', 'the axis of a cross product is ignored')
seed('C06-f', [(DEC, "                kwargs[i] = kwargs[i].simplified\n", "                pass\n")],
     "from quantities.decorators import quantitizer\nf = lambda a, b=None: (a + b,)\nf.__doc__ = ''\ng = quantitizer(f, lambda a, b=None: (a,))\nr = g(1*pq.m, b=100*pq.cm)[0]\nassert abs(float(r.magnitude) - 2) < 1e-12, r", 'a keyword argument which is not in base units', 'keyword arguments of wrapped functions are not converted')
seed('C06-g', [(UM, "        np.nansum(a.magnitude, axis),\n", "        np.nansum(a.magnitude),\n")],
     "r = pq.nansum(Q([[1.0, 2.0], [3.0, np.nan]], 'm'), 1)\nassert np.shape(r) == (2,), r", 'nansum with an axis', 'the axis of nansum is ignored')
seed('C06-h', [(UM, "    # the period is 2 pi radians, whatever the units of p are\n    discont = discont.rescale(radian)\n", "    discont = discont.rescale(p.units)\n")],
     "a = np.array([0.0, 200.0, 20.0, 350.0])\nr = pq.unwrap(Q(a, 'degree'), Q(190.0, 'degree'))\nw = np.unwrap(np.radians(a), np.radians(190.0))\nassert np.allclose(r.rescale('radian').magnitude, w), r", 'unwrap of degrees with a discontinuity', 'the discontinuity is taken for radians')
seed('C06-i', [(UM, "        ret = _trapz(y.magnitude , x, dx.magnitude, axis)\n        return Quantity ( ret, y.units * dx.units)", "        ret = _trapz(y.magnitude , x, dx.magnitude, axis)\n        return Quantity ( ret, y.units * dx.dimensionality.simplified**1)")],
     "r = pq.trapz(Q([1.0, 2.0], 'N'), dx=2*pq.cm)\nassert abs(float(r.rescale('J').magnitude) - 0.03) < 1e-12, r", 'a spacing which is not in base units', 'trapz ignores the prefix of the spacing')
seed('C07-f', [(Qf, "            if min is None: min = Quantity(-np.inf, self._dimensionality)", "            if min is None: min = Quantity(np.minimum(self.magnitude.min(), 0), self._dimensionality)")],
     "q = Q([[-5.0, 1.0], [2.0, np.nan]], 'm')\nr = q.clip(max=Q(1.5, 'm'))\nassert r.magnitude[0].tolist() == [-5.0, 1.0] and r.magnitude[1, 0] == 1.5, r", 'clip without a minimum of values with nan', 'clip gives nan everywhere')
seed('C07-g', [(Qf, "        ret = self.magnitude.trace(offset, axis1, axis2, dtype,", "        ret = self.magnitude.trace(offset, axis2, axis1, dtype,")],
     "a = np.arange(6.0).reshape(2, 3)\nr = Q(a, 'm').trace(1)\nassert float(r.magnitude) == a.trace(1), r", 'trace with an offset', 'the offset of a trace counts in the wrong direction')
seed('C07-h', [(Qf, "        ret = self.magnitude.mean(axis, dtype,", "        ret = self.magnitude.mean(axis, None,")],
     "r = Q(np.array([1, 2], 'i4'), 'm').mean(dtype='f4')\nassert r.dtype == np.float32, r.dtype", 'mean with a dtype', 'the dtype of a mean is ignored')
seed('C07-i', [(Qf, "        return self.magnitude.argsort(axis, kind, order)", "        return self.magnitude.argsort(axis)")],
     "a = np.array([1.0, 0.0]*40)\nassert (Q(a, 'm').argsort(kind='stable') == a.argsort(kind='stable')).all()", 'a stable sort of many equal values', 'the kind of sorting is ignored')
seed('C07-j', [(Qf, "            power = self.shape[axis]\n", "            power = self.shape[abs(axis)]\n")],
     "r = Q(np.ones((2, 3, 4)), 'm').prod(axis=-1)\nassert r.dimensionality == (pq.m**4).dimensionality, r", 'a product over a negative axis', 'the units of the product have the wrong power')
seed('C08-e', [(Qf, "        self.magnitude.fill(value)\n        try:\n            self._dimensionality = value.dimensionality\n        except AttributeError:\n            pass\n", "        try:\n            self._dimensionality = value.dimensionality\n        except AttributeError:\n            pass\n        self.magnitude.fill(value)\n")],
     "a = Q([1.0, 2.0], 'm')\ntry: a.fill(Q([1.0, 2.0], 's'))\nexcept Exception: pass\nassert a.dimensionality == pq.m.dimensionality, a", 'fill with an array, which NumPy refuses', 'a refused fill changes the units')
seed('C09-d', [(U, "        ret.flags.writeable = False\n", "")],
     "try: pq.m.magnitude[...] = 5.0\nexcept ValueError: pass\nassert float(pq.m.magnitude) == 1.0", 'writing through the magnitude of a unit', 'the numbers of a unit can be overwritten')
seed('C10-e', [(R, 'label = label.replace("%", "percent")', 'label = label.replace("%", "percent", 1)')],
     "assert Q(1.0, '%*s/%').dimensionality is not None", 'two percent signs', 'only the first percent sign is understood')
seed('C10-f', [(R, "            ast.operator,\n", "            ast.operator, ast.BoolOp, ast.boolop,\n")],
     "try: r = Q(1.0, 'm or s')\nexcept (LookupError, SyntaxError, ValueError): pass\nelse: raise SystemExit('accepted %s' % r)", 'a string with a boolean operator', '"m or s" is accepted as metre')
seed('C11-d', [(M, "        fmt = '(%s)' if len(den) > 1 else '%s'", "        fmt = '(%s)' if len(den) > 2 else '%s'")],
     "assert (pq.m/pq.s/pq.A).dimensionality.string != (pq.m*pq.A/pq.s).dimensionality.string\nassert Q(1.0, str((pq.m/pq.s/pq.A).dimensionality)).dimensionality == (pq.m/pq.s/pq.A).dimensionality", 'a denominator of two units', 'the text of two units in the denominator means something else')
seed('C11-e', [(M, "            if d != 1:\n                u = u + '**' + format_exponent(d)\n            num", "            if abs(d - 1) > 1e-3:\n                u = u + '**' + format_exponent(d)\n            num")],
     "assert (pq.m**1.0005).dimensionality.string != 'm'", 'an exponent close to one', 'm**1.0005 is printed as m')
seed('C12-d', [(U, "                self._u_symbol,\n                self._aliases,\n                self.__doc__\n            ),\n            self.__getstate__()", "                None,\n                self._aliases,\n                self.__doc__\n            ),\n            self.__getstate__()")],
     "import pickle\nassert pickle.loads(pickle.dumps(pq.um)).u_symbol == pq.um.u_symbol", 'the unicode symbol of a restored unit', 'restored units have no unicode symbol')
seed('C12-e', [(U, "        self._format_order = fo\n", "        self._format_order = (ver, ) + fo[1:]\n")],
     "import pickle\nk = pickle.loads(pickle.dumps(pq.kg)); m = pickle.loads(pickle.dumps(pq.m)); s = pickle.loads(pickle.dumps(pq.A))\nassert str((s*m*k).dimensionality) == str((pq.A*pq.m*pq.kg).dimensionality), (s*m*k)", 'a product of restored units', 'restored units take another place in a product')
seed('C13-d', [(D, "                rq = rq * u.simplified**d\n", "                rq = rq * u._reference**d\n")],
     "pq.set_default_units(length='ft')\nd = (pq.km/pq.s).dimensionality.simplified\npq.set_default_units('SI')\nassert d == (pq.ft/pq.s).dimensionality, d", 'simplifying unit expressions under other defaults', 'unit expressions ignore the default units')
seed('C14-e', [(UN, "            n * self.view(Quantity)**(n - 1) * self.uncertainty", "            n * self.view(Quantity)**(n - 1) * self.uncertainty if np.all(n >= 0) else self.view(Quantity)**n * self.relative_uncertainty")],
     "r = UQ(2.0, 'm', 0.5)**-2\nassert abs(float(r.uncertainty.magnitude) - 0.125) < 1e-12, r", 'a negative power', 'the uncertainty of a negative power lacks the factor of the exponent')
seed('C14-f', [(UN, "        value = value.rescale(self._dimensionality, dtype='d')\n        uncertainty = _get_uncertainty(value)\n", "        uncertainty = _get_uncertainty(value)\n        value = value.rescale(self._dimensionality, dtype='d')\n")],
     "u = UQ([1.0, 2.0], 'm', [0.1, 0.2]); u[0] = UQ(300.0, 'cm', 10.0)\nassert abs(float(u.uncertainty.magnitude[0]) - 0.1) < 1e-12, u", 'assignment of an uncertain value in other units', 'the assigned uncertainty is not converted')
seed('C17-c', [(D, "        use_unicode = markup.config.use_unicode\n        if use_unicode:\n            return markup.format_units_unicode(self, use_unicode)\n        else:\n            return markup.format_units(self, use_unicode)", "        use_unicode = markup.config.use_unicode\n        markup.config.use_unicode = False\n        try:\n            res = markup.format_units(self) if not use_unicode else None\n        finally:\n            markup.config.use_unicode = use_unicode\n        return markup.format_units_unicode(self, use_unicode) if use_unicode else res")],
     '''import sys, threading
d = (pq.m**2/pq.s).dimensionality
hit = threading.Event(); go = threading.Event(); out = {}
pq.markup.config.use_unicode = True
want = str(d)
pq.markup.config.use_unicode = False
n = [0]
def tracer(frame, event, arg):
    if frame.f_code.co_name == '__str__' and frame.f_code.co_filename.endswith('dimensionality.py'):
        def local(f, e, a):
            n[0] += 1
            if e == 'line' and n[0] == K:
                hit.set(); go.wait(5)
            return local
        return local
bad = []
for K in range(1, 12):
    n[0] = 0; hit.clear(); go.clear(); pq.markup.config.use_unicode = False
    def first():
        sys.settrace(tracer); str(d); sys.settrace(None)
    t = threading.Thread(target=first); t.start(); hit.wait(0.5)
    pq.markup.config.use_unicode = True
    go.set(); t.join()
    if str(d) != want: bad.append(K)
pq.markup.config.use_unicode = False
assert not bad, bad''', 'a switch of the unicode option while another thread prints units', 'printing restores the option another thread has just changed')
seed('C18-d', [(Qf, "            value = unit_registry[value]\n", "            if value not in _parsed:\n                _parsed[value] = unit_registry[value]\n            value = _parsed[value]\n"), (Qf, "def validate_dimensionality(value):\n", "_parsed = {}\n\ndef validate_dimensionality(value):\n"), (R, "                    return item\n", "                    return self._results.setdefault(string, item) if not string[0].isdigit() else item\n"), (R, "        __shared_state = {}\n", "        __shared_state = {}\n        _results = {}\n")],
     "u = pq.unit_registry['km/h']; u *= 2\nassert float(pq.unit_registry['km/h'].magnitude) == 1.0", 'a parsed unit which is changed in place', 'the result of parsing a string is shared')
seed('C19-b', [(Qf, "        for preferred in PREFERRED:\n", "        for preferred in reversed(PREFERRED):\n")],
     "pq.quantity.PREFERRED = [pq.cm, pq.km]\nr = (3*pq.m).rescale()\npq.quantity.PREFERRED = []\nassert r.dimensionality == pq.cm.dimensionality, r", 'two preferred units of the same dimension', 'the last compatible preferred unit is chosen')
seed('C20-c', [(Qf, "        assert value.magnitude == 1\n", "        assert np.isclose(value.magnitude, 1)\n")],
     "try: r = Q(1.0, 1.0000001*pq.m)\nexcept ValueError: pass\nelse: raise SystemExit('accepted')", 'a quantity of nearly one', 'a quantity of nearly one is taken for a unit')
seed('C20-d', [(Qf, "        ret = super().take(indices, axis, out, mode)\n", "        ret = super().take(indices, axis, out)\n")],
     "r = Q([1.0, 2.0, 3.0], 'm').take([4, -7], mode='wrap')\nassert r.magnitude.tolist() == [2.0, 3.0], r", 'take with a mode', 'the mode of take is ignored')
seed('C20-e', [(Qf, "                return Quantity.__new__(cls, 1.0, data.dimensionality, dtype)", "                return Quantity.__new__(cls, 1.0, data.dimensionality)")],
     "assert Q(pq.m, dtype='f4').dtype == np.float32", 'a quantity made of a unit with a dtype', 'the dtype is ignored')

seed('C22-a', [(Qf, "        ret = super().__getitem__(key)\n        if isinstance(ret, Quantity):\n", "        ret = super().__getitem__(key)\n        if type(ret) is Quantity or hasattr(ret, 'uncertainty'):\n")],
     "class Sub(pq.Quantity): pass\na = Sub([1.0, 2.0], 'm'); a[1:] *= 3; v = a[:1]; v *= 5\nassert a.magnitude.tolist() == [5.0, 6.0], a", 'a slice of an object of a subclass which is changed in place', 'slices of objects of a subclass are copies')
seed('C22-b', [(Qf, "    def g(self, other):\n        if isinstance(other, Quantity):\n            if other._dim", "    def g(self, other):\n        if isinstance(other, type(self)) or hasattr(other, 'definition'):\n            if other._dim")],
     "class Sub(pq.Quantity): pass\nassert Sub([100.0], 'cm') < Q([2.0], 'm')\nassert Sub([1.0], 'm') < Q([2.0], 'm')", 'a subclass object compared with a plain quantity in other units', 'the right operand is not converted if its class is not that of the left one')
seed('C22-c', [(Qf, "        if getattr(other, 'dimensionality', None):\n            try:\n                assert not isinstance(self.base, Quantity)\n", "        if getattr(other, 'dimensionality', None):\n            try:\n                assert type(self.base) is not Quantity\n")],
     "class Sub(pq.Quantity): pass\na = Sub([1.0, 2.0], 'm'); v = a[:1]\ntry: v *= pq.s\nexcept ValueError: pass\nelse: raise SystemExit('changed')", 'a view of an object of a subclass multiplied in place by a unit', 'the numbers of the whole change, its units do not')
seed('C22-d', [(Qf, "                (isinstance(min, Quantity) and isinstance(max, Quantity)):", "                (isinstance(min, type(self)) and isinstance(max, type(self))):")],
     "class Sub(pq.Quantity): pass\nr = Sub([1.0, 5.0], 'm').clip(Q(2.0, 'm'), Q(300.0, 'cm'))\nassert r.magnitude.tolist() == [2.0, 3.0], r", 'an object of a subclass clipped to plain quantities', 'limits which are plain quantities are refused')
seed('C22-e', [(Qf, "        ret = self.magnitude.sum(axis, dtype, None if out is None else out.magnitude)\n        dim = self.dimensionality\n        if out is None:\n            return Quantity(ret, dim)\n        if not isinstance(out, Quantity):\n", "        ret = self.magnitude.sum(axis, dtype, None if out is None else out.magnitude)\n        dim = self.dimensionality\n        if out is None:\n            return Quantity(ret, dim)\n        if type(out) not in (Quantity, type(self)):\n")],
     "class Sub(pq.Quantity): pass\no = Sub([7.0, 7.0], 's'); Q([[1.0, 2.0], [3.0, 4.0]], 'm').sum(axis=0, out=o)\nassert o.dimensionality == pq.m.dimensionality, o", 'the sum of a plain quantity into an object of a subclass', 'an object of a subclass is refused as output argument')

seed('C01-m', [(Qf, "        mag = self.magnitude\n        mag *= cf\n", "        mag = self.magnitude.reshape(-1)\n        mag *= cf\n")],
     "a = Q(np.arange(24.0).reshape(2, 3, 4)[:, ::2], 'm').copy(order='A'); b = np.arange(24.0).reshape(4, 3, 2).T.view(Q)\nb = pq.Quantity(np.arange(24.0).reshape(4, 3, 2).T, 'm')\nb.units = 'cm'\nassert b.magnitude[1, 1, 1] == np.arange(24.0).reshape(4, 3, 2).T[1, 1, 1]*100, b", 'a transposed array of three dimensions whose units are assigned', 'the units change, the numbers do not')
seed('C01-n', [(Qf, "        if self.dimensionality == to_dims:\n            return self.astype(dtype)", "        if self.dimensionality == to_dims or (self.size and not self.magnitude.any()):\n            return Quantity(self.magnitude.astype(dtype), to_dims)")],
     "try: Q([0.0, 0.0], 'm').rescale('s')\nexcept ValueError: pass\nelse: raise SystemExit('accepted')", 'a quantity of nothing but zeros', 'zeros are converted to incompatible units')
seed('C02-m', [(Qf, "        if other._dimensionality != self._dimensionality:\n            other = other.rescale(self.units, dtype=np.result_type(self.dtype, other.dtype))\n        return f", "        if other._dimensionality != self._dimensionality and other.size:\n            other = other.rescale(self.units, dtype=np.result_type(self.dtype, other.dtype))\n        return f")],
     "try: r = Q(2.0, 'm') + Q([], 's')\nexcept ValueError: pass\nelse: raise SystemExit(repr(r))\nr = Q([1.0], 'm') + Q(np.zeros((0,)), 'cm')\nassert r.dimensionality == pq.m.dimensionality, r", 'an empty right operand in other units', 'empty arrays of other dimensions are added')
seed('C03-m', [(D, "                new[unit] -= power\n                if new[unit] == 0:", "                new[unit] -= power\n                if abs(new[unit]) < 0.1:")],
     "r = pq.m**0.5/pq.m**0.4375\nassert r.dimensionality, r", 'a quotient whose exponent is a small fraction', 'small exponents vanish')
seed('C13-m', [(U, "        system = system.lower()\n", "        system = system.strip().lower()[:3]\n")],
     "try: pq.set_default_units('cgs-emu')\nexcept ValueError: pass\nelse: raise SystemExit('accepted')", 'the name of a system which begins like cgs', 'an unknown system of units is taken for cgs')
seed('C17-m', [(M, "        if use_unicode:\n            u = key.u_symbol", "        if use_unicode and config.use_unicode:\n            u = key.u_symbol")],
     """import sys
q = 3*pq.um**2; outs = set()
for n in range(1, 120):
    pq.markup.config.use_unicode = True
    c = [0]
    def local(f, e, a):
        c[0] += 1
        if c[0] == n:
            sys.settrace(None); pq.markup.config.use_unicode = False
        return local
    sys.settrace(lambda f, e, a: local if 'quantities' in f.f_code.co_filename else None)
    s = q.dimensionality.unicode if False else str(q.dimensionality)
    sys.settrace(None); outs.add(s)
pq.markup.config.use_unicode = False
assert outs <= {'\\u00b5m\\u00b2', 'um**2'}, outs""", 'the unicode option switched off while a text is being made', 'the text is partly plain and partly unicode')
seed('C18-m', [(D, "    def ndims(self):\n        return sum(abs(i) for i in self.simplified.values())", "    def ndims(self):\n        k = self.string\n        if k not in _nd:\n            _nd[k] = sum(abs(i) for i in self.simplified.values())\n        return _nd[k]"), (D, "class Dimensionality(dict):\n", "_nd = {}\n\nclass Dimensionality(dict):\n")],
     "a = pq.hour.dimensionality.ndims\nb = pq.constants.h.dimensionality\nassert b.ndims == sum(abs(i) for i in b.simplified.values()), b.ndims", 'two units of the same symbol and different dimensions', 'a result for one unit is given for another one of the same symbol')
seed('C20-m', [(Qf, "        assert value.shape in ((), (1, ))", "        assert value.size == 1")],
     "try: r = Q(1.0, [[1.0]]*pq.m)\nexcept ValueError: pass\nelse: raise SystemExit('accepted')\nassert Q(1.0, [1.0]*pq.m).dimensionality == pq.m.dimensionality", 'a matrix of one element in place of a unit', 'a matrix is taken for a unit')
seed('C20-n', [(Qf, "        if isinstance(work_list, list):\n            self._tolist(work_list)\n        else:", "        if isinstance(work_list, list) and self.ndim < 5:\n            self._tolist(work_list)\n        else:")],
     "l = Q(np.ones((2,)*5), 'm').tolist()\nassert isinstance(l, list) and isinstance(l[0], list) and isinstance(l[0][0][0][0][0], Q)", 'an array of five axes', 'an array is given in place of the list')
seed('C06-m', [('umath.py', "        return tuple( Quantity(i, f.units/j.units)\n                      for i,j  in zip( ret, varargsQuantities))", "        return tuple( Quantity(i, f.units/j.units)\n                      for i,j  in zip( ret, varargsQuantities[:1]*(len(ret)-1) + varargsQuantities[-1:]))")],
     "g = pq.gradient(Q(np.arange(27.).reshape(3, 3, 3)**2, 'K'), 1*pq.m, 2*pq.s, 3*pq.kg)\nassert [i.dimensionality for i in g] == [(pq.K/u).dimensionality for u in (pq.m, pq.s, pq.kg)], g", 'a gradient along three axes of different units', 'the middle axis gets the units of the first')
