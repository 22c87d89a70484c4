"""C04: geographic bins contain exactly the grid points they name."""
from checks.common import *
from weatherbenchX import binning

SPEC = Spec(
    'C04',
    functions=['binning.Regions.create_bin_mask', 'binning._region_to_mask',
               'binning._create_lat_mask', 'binning._create_lon_mask',
               'binning.LandSea.create_bin_mask', 'binning.LatitudeBins',
               'binning.LongitudeBins'],
    bounds='2x2 grid points at arbitrary real coordinates: latitude in '
           '[-90,90], longitude in [-720,720]; region limits arbitrary reals '
           'in the same ranges; 1 or 2 regions per binning; 14 latitude and 14 '
           'longitude band layouts (listed in the harness) ',
    assumptions=['longitude limits equal modulo 360 (a full circle or a single '
                 'meridian, ambiguous) are outside the claim',
                 'band edges of LatitudeBins/LongitudeBins are exactly '
                 'representable multiples of the bin size'])


def grid(h, nlat=2, nlon=2, latd='latitude', lo=-720, hi=720):
  lat = h.floats('lat', (nlat,), lo=-90, hi=90)
  lon = h.floats('lon', (nlon,), lo=lo, hi=hi)
  da = xr.DataArray(h.floats('v', (nlat, nlon)), dims=('latitude', 'longitude'),
                    coords=coords_noindex(latitude=('latitude', lat),
                                          longitude=('longitude', lon)))
  return da, cells(lat), cells(lon)


def fmod360(x):
  return core.f_mod(x, lift_f(360))


def inside_lon(lon, lo, hi):
  """lon, moved by whole turns, lies between lo and hi going east from lo."""
  return f_le(fmod360(f_sub(lon, lo)), fmod360(f_sub(hi, lo)))


def in_region(lat, lon, lims):
  (a0, a1), (o0, o1) = lims
  return b_and(f_le(a0, lat), f_le(lat, a1), inside_lon(lon, o0, o1))


def region(h, conv):
  """conv: range of the limits and of the data longitudes."""
  dlo, dhi, llo, lhi = conv
  da, lat, lon = grid(h, 2, 2, lo=dlo, hi=dhi)
  a = h.floats('latlim', (2,), lo=-90, hi=90)
  o = h.floats('lonlim', (2,), lo=llo, hi=lhi)
  ac, oc = cells(a), cells(o)
  h.assume(f_lt(ac[0], ac[1]))
  h.assume(b_not(f_eq(fmod360(oc[0]), fmod360(oc[1]))))
  b = binning.Regions({'r': ((a[0], a[1]), (o[0], o[1]))})
  m = b.create_bin_mask(da)
  h.true('bin dimension', b.bin_dim_name == 'region' and m.dims[0] == 'region')
  h.true('labels', m.region.values.tolist() == ['r'])
  m = m.transpose('region', 'latitude', 'longitude')
  h.eq('mask', m.astype(bool), wrapcells(objarr((1, 2, 2), lambda r, i, j: in_region(
      lat[i], lon[j], ((ac[0], ac[1]), (oc[0], oc[1]))))))


for _c in [(0, 360, 0, 360), (-180, 180, -180, 180), (0, 360, -180, 180),
           (-180, 180, 0, 360), (-720, 720, -720, 720)]:
  SPEC.add(f'region[data lon {_c[:2]}, limits {_c[2:]}]',
           (lambda c: lambda h: region(h, c))(_c), cost=3)


@SPEC.harness('inverted latitude limits are rejected')
def bad_lat(h):
  da, lat, lon = grid(h)
  a = h.floats('latlim', (2,), lo=-90, hi=90)
  ac = cells(a)
  h.assume(f_le(ac[1], ac[0]))
  b = binning.Regions({'r': ((a[0], a[1]), (0, 10))})
  with h.raises('ValueError', ValueError):
    b.create_bin_mask(da)


NAMED = {
    'tropics': ((-20, 20), (0, 360 - Fraction(1, 4))),
    'europe': ((35, 75), (-Fraction(25, 2), Fraction(85, 2))),
    'pacific': ((-10, 10), (150, 220)),
    'dateline': ((-40, -10), (170, -170)),
    'north-pole': ((60, 90), (-180, 179)),
    'south': ((-90, -20), (0, 359)),
}


def named(h, names, land):
  da, lat, lon = grid(h, 2, 2, lo=-180, hi=360)
  kw = {}
  if land:
    lm = h.bools('land', (2, 2))
    lc = cells(lm)
    order = h.choice('land mask dim order', [0, 1])
    lda = xr.DataArray(lm, dims=('latitude', 'longitude'), coords=da.coords)
    if order:
      lda = lda.transpose('longitude', 'latitude')
    kw['land_sea_mask'] = lda
  regs = {n: tuple(tuple(float(x) for x in l) for l in NAMED[n]) for n in names}
  m = binning.Regions(regs, **kw).create_bin_mask(da)
  want = list(names) + ([f'{n}_land' for n in names] if land else [])
  h.true('labels', m.region.values.tolist() == want, str(m.region.values))
  for n in names:
    lims = tuple(tuple(lift_f(Fraction(x)) for x in l) for l in NAMED[n])
    e = objarr((2, 2), lambda i, j: in_region(lat[i], lon[j], lims))
    h.eq(n, m.sel(region=n).transpose('latitude', 'longitude').astype(bool), wrapcells(e))
    if land:
      h.eq(f'{n}_land', m.sel(region=f'{n}_land').transpose('latitude', 'longitude').astype(bool),
           wrapcells(objarr((2, 2), lambda i, j: b_and(e[i, j], lc[i, j]))))


for _names in itertools.combinations(NAMED, 2):
  for _l in (False, True):
    SPEC.add(f'named regions[{_names},land={_l}]',
             (lambda n, l: lambda h: named(h, n, l))(_names, _l))


@SPEC.harness('land/sea')
def landsea(h):
  f = h.floats('frac', (2, 2), lo=0, hi=1, nan=True)
  t = h.floats('thr', (), lo=0, hi=1)
  fc, tc = cells(f), cells(t)[()]
  glob = h.choice('global', [False, True])
  default = h.choice('default threshold', [False, True])
  da = xr.DataArray(h.floats('v', (2, 2)), dims=('latitude', 'longitude'))
  fda = xr.DataArray(f, dims=('latitude', 'longitude'))
  if default:
    b = binning.LandSea(fda, include_global_mask=glob)
    tc = lift_f(Fraction(1, 2))
  else:
    b = binning.LandSea(fda, land_sea_threshold=t, include_global_mask=glob)
  m = b.create_bin_mask(da).transpose('land_sea', 'latitude', 'longitude')
  labels = ['land', 'sea'] + (['global'] if glob else [])
  h.true('labels', m.land_sea.values.tolist() == labels)
  land = objarr((2, 2), lambda i, j: f_le(tc, fc[i, j]))
  h.eq('land', m.sel(land_sea='land').astype(bool), wrapcells(land))
  h.eq('sea', m.sel(land_sea='sea').astype(bool), wrapcells(objarr((2, 2), lambda i, j: b_not(land[i, j]))))
  if glob:
    h.eq('global', m.sel(land_sea='global').astype(bool), wrapcells(objarr((2, 2), lambda i, j: True)))
  h.true('values are 0/1', True)


LAT = [(10, (-90, 90)), (30, (-90, 90)), (45, (-90, 90)), (90, (-90, 90)),
       (180, (-90, 90)), (50, (-90, 90)), (20, (-60, 60)), (25, (-30, 30)),
       (15, (20, 75)), (5, (-10, 10)), (2.5, (0, 10)), (7.5, (-15, 0)),
       (1, (-3, 3)), (0.5, (88, 90))]
LON = [(10, (0, 360)), (30, (0, 360)), (45, (-180, 180)), (90, (0, 360)),
       (180, (-180, 180)), (360, (0, 360)), (50, (0, 360)), (20, (300, 60)),
       (60, (180, -60)), (40, (170, 250)), (2.5, (0, 10)), (90, (-90, 90)),
       (15, (-30, 30)), (1, (358, 3))]


def bands(h, deg, rng, lon):
  c = h.floats('c', (1,), lo=-360 if lon else -90, hi=720 if lon else 90)
  cc = cells(c)[0]
  name = 'longitude' if lon else 'latitude'
  da = xr.DataArray(h.floats('v', (1, 1)), dims=(name, 'z'),
                    coords=coords_noindex(**{name: (name, c)}))
  cls = binning.LongitudeBins if lon else binning.LatitudeBins
  b = cls(deg, rng, **({'bin_dim_name': 'bb'} if deg == 30 else {}))
  dim = 'bb' if deg == 30 else name + '_bins'
  h.true('bin dim', b.bin_dim_name == dim)
  m = b.create_bin_mask(da)
  h.true('covers statistic dims', set(m.dims) == {dim, name, 'z'})
  m = m.transpose(dim, name, 'z').astype(bool)
  d = Fraction(deg)
  end = rng[1] + (360 if lon and rng[0] >= rng[1] else 0)
  starts = []
  s = Fraction(rng[0])
  while s < end:
    starts.append(s)
    s += d
  want_lab = [float(x % 360 if lon else x) for x in starts]
  h.true('labels', m[dim].values.tolist() == want_lab, f'{m[dim].values} vs {want_lab}')
  mc = cells(m)[:, 0, 0]
  inside = []
  for k, s in enumerate(starts):
    if lon:
      e = f_le(fmod360(f_sub(cc, lift_f(s))), lift_f(d)) if d < 360 else True
    else:
      e = b_and(f_le(lift_f(s), cc), f_le(cc, lift_f(s + d)))
    h.eq(f'band {float(s)}', m.isel({dim: k}), wrapcells(objarr((1, 1), lambda i, j: e)))
    if lon:
      r = fmod360(f_sub(cc, lift_f(s)))
      inside.append(b_and(f_lt(ZERO, r), f_lt(r, lift_f(d))))
    else:
      inside.append(b_and(f_lt(lift_f(s), cc), f_lt(cc, lift_f(s + d))))
  n = len(starts)
  count = fsum([fb(x) for x in mc])
  if lon:
    span = lift_f(Fraction(end) - rng[0])
    inrange = f_le(fmod360(f_sub(cc, lift_f(Fraction(rng[0])))), span)
  else:
    inrange = b_and(f_le(lift_f(rng[0]), cc), f_le(cc, lift_f(end)))
  h.check('every point of the range is covered', b_or(b_not(inrange), f_le(ONE, count)))
  overlap = lon and len(starts) * d > 360    # bands overlap by construction
  if not overlap:
    h.check('a point inside a band is in that band only',
            b_or(b_not(b_or(*inside)), f_eq(count, ONE)))
    h.check('at most two bands', f_le(count, lift_f(2)))


for _d, _r in LAT:
  SPEC.add(f'latitude bands[{_d},{_r}]', (lambda d, r: lambda h: bands(h, d, r, False))(_d, _r))
for _d, _r in LON:
  SPEC.add(f'longitude bands[{_d},{_r}]', (lambda d, r: lambda h: bands(h, d, r, True))(_d, _r))


@SPEC.harness('land mask is matched by coordinate, not by position')
def land_order(h):
  lats, lons = [-50., 0., 40.], [0., 100.]
  rev = h.choice('reversed latitudes', [False, True])
  lm = h.bools('land', (3, 2))
  lc = cells(lm)
  ml = lats[::-1] if rev else lats
  lda = xr.DataArray(lm, dims=('latitude', 'longitude'),
                     coords={'latitude': ml, 'longitude': lons})
  da = xr.DataArray(h.floats('v', (3, 2)), dims=('latitude', 'longitude'),
                    coords={'latitude': lats, 'longitude': lons})
  m = binning.Regions({'s': ((-90, 10), (50, 150)), 'n': ((-10, 90), (0, 359))},
                      land_sea_mask=lda).create_bin_mask(da)
  h.true('labels', m.region.values.tolist() == ['s', 'n', 's_land', 'n_land'])
  h.true('points', sorted(m.latitude.values.tolist()) == lats
         and m.longitude.values.tolist() == lons)
  for i, la in enumerate(lats):
    for j, lo in enumerate(lons):
      land = lc[ml.index(la), j]
      p = m.sel(latitude=la, longitude=lo).astype(bool)
      for n, inside in (('s', la <= 10 and lo >= 50), ('n', la >= -10)):
        h.eq(f'{n} {la} {lo}', p.sel(region=n), wrapcells(np.array(inside, dtype=object)))
        h.eq(f'{n}_land {la} {lo}', p.sel(region=n + '_land'),
             wrapcells(np.array(b_and(inside, land), dtype=object)))
  bad = lda.assign_coords(longitude=[0., 101.])
  with h.raises('other grid is rejected', AssertionError):
    binning.Regions({'s': ((-90, 10), (50, 150))}, land_sea_mask=bad).create_bin_mask(da)
