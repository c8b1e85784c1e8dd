import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
U='src/sunwhere/usecases.py'; C='src/sunwhere/_core.py'; B='src/sunwhere/_base.py'; L='src/sunwhere/libspa/'
V='src/sunwhere/utils/validate.py'; D='src/sunwhere/utils/datetime.py'; J='src/sunwhere/utils/jpl_horizons.py'
ACC=['sites(...)','regular_grid(...)','transect(...)','Sunpos accessors']
def alg(id,name,key,ref,files,extra=''):
    p(id,f'{name} results are those of the published algorithm, everywhere and always',
      f'For every UTC instant from year -2000 to 6000 (whole seconds) and every latitude in [-90, 90] and longitude in [-180, 180), the zenith, azimuth, declination, equation of time and sun-earth distance correction obtained with algorithm "{key}" are those of {ref}{extra}. This holds through sites, regular_grid and transect, for every engine the algorithm has, with and without refraction, to the precision of the arithmetic (float32 coordinates, cosine of the zenith to 1.2e-6).',
      ['inputs','configurations'],f'all instants in years -2000 to 6000, most of them in 1700-2250, x all locations x 3 use cases x engines x refraction on/off, including calendar, pole, date-line, horizon and overhead-sun neighbourhoods',
      'The tests compare a few instants against wide tolerances (degrees, minutes of time), never check the azimuth effectively, and never turn refraction on; an error in one branch, one use case, one leap year, one hemisphere or before 1970 is invisible to them.',
      files,[('time-dependent calculations',files[0]+':time_dependent_calculations'),('local coordinates, 3 variants by use case',files[0]+':_sunpos_*_dimensional'),('dispatch',C+':evaluate')],observe=ACC)
alg('C01','PSA','psa','the PSA algorithm with the 2020 coefficients (Blanco et al. 2020), its parallax correction, SolTrack sun-earth distance and Michalsky equation of time',[L+'py_psa.py',L+'ne_psa.py',C])
alg('C02','SolTrack','soltrack','SolTrack (van der Sluys and van Kan 2022), with refraction applied only for true elevations above -0.8333 degrees',[L+'py_soltrack.py',L+'ne_soltrack.py',C])
alg('C03','Iqbal','iqbal',"Iqbal's Fourier series in the day angle of the Gregorian date (with the refitted coefficients documented in the code)",[L+'py_iqbal.py',L+'ne_iqbal.py',C])
alg('C04','NREL','nrel',"NREL's SPA (Reda and Andreas 2003, revised 2008) with delta T = 67 s, sea level, 1013.25 hPa and 12 C",[L+'ne_nrel.py',C],', including all its periodic terms')
p('C05','sites, regular_grid and transect agree cell by cell',
  'For the same instant, location, algorithm, engine and refraction flag, sites, regular_grid and transect give the same zenith, azimuth, declination, equation of time and distance correction (to float precision), each at its own cell: [k, j] for sites, [k, j, i] for regular_grid and [k] for transect.',
  ['inputs','configurations'],'all instants, locations and grid shapes (including 1-sized and unequal sizes), all algorithms and engines, refraction on/off',
  'Every kernel exists three times, once per use case; the tests mostly run `sites`, and compare no two use cases.',
  [U,C]+[L+f for f in ('py_psa.py','ne_psa.py','py_soltrack.py','ne_soltrack.py','py_iqbal.py','ne_iqbal.py','ne_nrel.py')],
  [('use case dispatch',U),('kernel variants',L+'*:_sunpos_{one,two,three}_dimensional'),('output scatter',C+':evaluate.reshape')],observe=ACC)
p('C06','numpy and numexpr engines agree',
  'For every algorithm that has both engines, the numpy and the numexpr engines give the same zenith, azimuth, declination, equation of time and distance correction for the same request, within the tolerance of single precision coordinates.',
  ['inputs','configurations'],'all instants in years -2000 to 6000 (before and after 1970), all locations, 3 use cases, refraction on/off',
  'The tests compare the engines at a handful of recent instants without refraction; float `%` differs in sign between both engines before the epoch and no test gets there.',
  [L+f for f in ('py_psa.py','ne_psa.py','py_soltrack.py','ne_soltrack.py','py_iqbal.py','ne_iqbal.py')],[('engine selection',C+':evaluate')],observe=ACC)
p('C07','A cell depends only on its own instant and location',
  'The result of a cell (one instant at one location) does not depend on which other instants or locations are in the request, on their order, on repetitions, or on how many there are. Splitting a request in parts, permuting it or repeating its elements splits, permutes or repeats its results.',
  ['inputs','programs'],'all decompositions, permutations and repetitions of a request; unsorted and duplicated times; request sizes from 1 to tens of thousands of cells; any number of numexpr threads',
  'A test runs a fixed request; whole-array shortcuts, first-element dependences, block-boundary errors of the vectorized code and sorting assumptions need other requests to be seen.',
  [C,B,U],[('vectorized kernels',L),('no cross-cell reduction',C+':evaluate')],observe=ACC)
p('C08','Missing instants and coordinates yield missing results, and only there',
  'A NaT instant yields NaN (NaT for times) in every variable at its time index, and leaves the results of all the other instants as if it were not in the request; a NaN latitude or longitude yields NaN zenith and azimuth at its cells only. A request with no valid instant, or with no instant at all, gives a result of the expected shape.',
  ['inputs'],'all placements of NaT in the times and of NaN in the coordinates (none, some, all, empty), all algorithms, engines and use cases',
  'No test has missing values mixed with valid ones in grids and sites and reads every accessor.',
  [C,B],[('NaT masking and scatter',C+':evaluate')],observe=ACC)
p('C09','Results depend on the instants, not on how they are written',
  'The same instants given as naive UTC, in any time zone (pytz, zoneinfo, fixed offset), or as strings, datetime, Timestamp, datetime64 or DatetimeIndex give the same solar geometry. The result reports the instants it was asked for: `times` are the same instants in the input time zone (UTC if naive), `times_utc` the same in UTC, `timezone` names that zone, and the time coordinate is the wall time in it, also across daylight-saving changes.',
  ['inputs','configurations'],'all instants x representations x time zones, including both instants of ambiguous wall times',
  'Tests pass naive UTC times only.',
  [U,V,B],[('conversion to UTC',V+':check_timelatlon'),('time zone bookkeeping',B+':Sunpos.__init__')],observe=['Sunpos.times','Sunpos.times_utc','Sunpos.timezone','DataArray time coordinates'])
p('C10','Ill-formed requests are rejected, well-formed ones are served',
  'A request is served if latitudes are in [-90, 90], longitudes in [-180, 180), all inputs are scalars or one-dimensional, sizes match (latitude and longitude in sites; times, latitude and longitude in transect), the algorithm exists and it has the engine. Otherwise it raises an exception (ValueError for out-of-range coordinates, mismatched sizes and unknown algorithm or engine) and no result is returned. SPA_ALGORITHMS names the algorithms that are served.',
  ['inputs','configurations'],'all combinations of in-range, boundary and out-of-range coordinates at any position of the arrays, of NaNs, of sizes and ranks, of algorithms and engines, in the three use cases',
  'Only a few bad requests are tried by hand; validity is a product of independent conditions, each at any array position and each use case.',
  [V,U,C],[('validation',V+':check_timelatlon'),('shape checks',U)],observe=['exceptions'])
p('C11','Every valid request gives a finite angle in its documented range',
  'For every valid instant and location and every algorithm, engine and refraction flag, zenith is in [0, 180], elevation in [-90, 90], azimuth in [-180, 180], cosz in [-1, 1], declination within 24 degrees, equation of time within 20 minutes and the distance correction within [0.96, 1.04]; none is NaN or infinite, also with the sun at the zenith, at the nadir or on the horizon and at the poles and the date line.',
  ['inputs','configurations'],'all instants 1700-2250 x all locations x algorithms x engines x refraction, concentrated where inverse trigonometric functions and refraction are singular',
  'Random or hand-picked cases never place the sun within 1e-7 of the zenith or at the poles of the refraction formula.',
  [L+f for f in ('py_psa.py','ne_psa.py','py_soltrack.py','ne_soltrack.py','py_iqbal.py','ne_iqbal.py','ne_nrel.py')]+[B],[('domain of arccos and arcsin, wrap of azimuth and eot',L)],observe=ACC)
p('C12','Refraction raises the sun slightly, mostly near the horizon, and nothing else',
  'Turning refraction on changes no azimuth, declination, equation of time or distance correction. It raises a sun above the horizon by 0 to 0.7 degrees: 0.4 to 0.7 at the horizon, less the higher the sun, and less than 0.012 above 80 degrees of elevation (all to single precision). Below a true elevation of -0.84 degrees it does nothing with psa, soltrack and nrel, and moves the sun by -0.04 to 1.5 degrees with iqbal, whose formula has no threshold. Any truthy (falsy) flag turns it on (off).',
  ['inputs','configurations'],'all elevations from -90 to 90, all algorithms, engines, use cases and flag values',
  'The test-suite never turns refraction on.',
  [L+f for f in ('py_psa.py','ne_psa.py','py_soltrack.py','ne_soltrack.py','py_iqbal.py','ne_iqbal.py','ne_nrel.py')]+[C],[('refraction correction',L+'*:with_refraction')],observe=ACC)
p('C13','Results are labelled with exactly the request that produced them',
  'Every variable has the dimensions documented for the use case (time; time, location; time, latitude, longitude), one entry per requested instant, location, latitude or longitude in request order, with the requested latitudes, longitudes and times as coordinates; algorithm, engine, has_refraction and usecase echo the request; the units attribute names the unit of the values, and no value is outside of the range that the range attribute declares (by more than rounding).',
  ['inputs','configurations'],'all use cases x sizes (0, 1, many; square and not) x coordinate values, unsorted or duplicated, scalar or array inputs, all accessors',
  'Tests check few shapes; a transposition in a square grid or a coordinate attached in another order keeps every shape right.',
  [B,U],[('DataArray construction',B+':Sunpos.__init__')],observe=['dims, coords, names and attributes of every accessor'])
p('C14','The accessors of a result are consistent with one another',
  'For every result, elevation = 90 - zenith, cosz is the cosine of zenith, sza, saa and dec equal zenith, azimuth and declination, all angles are in degrees, and local_standard_time equals times; reading any accessor returns the same values whatever was read before.',
  ['inputs','histories'],'all results of the three use cases and all orders of reading',
  'Tests read few accessors, once and in isolation.',
  [B],[('derived properties',B+':Sunpos')],observe=['Sunpos accessors'])
p('C15','True solar time is UTC plus equation of time plus four minutes per degree',
  'true_solar_time is, at every cell, times_utc + eot + 4 min x longitude (degrees east), as a date and time to better than 1 millisecond, whatever the time zone of the input, before and after 1970 and across midnights; the sun of a low-precision ephemeris crosses the meridian when it reads 12:00.',
  ['inputs'],'all instants x longitudes x time zones x use cases','No test reads true_solar_time at negative longitudes, before 1970 or with time zones.',
  [B],[('true_solar_time',B+':Sunpos.true_solar_time')],observe=['Sunpos.true_solar_time'])
p('C16','Sunrise, sunset and day length obey the sunrise equation; NaN if polar',
  "With phi the latitude and delta the result's declination, sunrise('deg') = arccos(-tan phi tan delta) and sunrise('rad') the same in radians, sunset is minus that angle, daylight_length is 2/15 of it in hours, and all are NaN exactly where |tan phi tan delta| > 1. sunrise('tst') and sunset('tst') are symmetric about the noon of the cell's true solar day, half a day length away from it. Unknown units raise ValueError.",
  ['inputs'],'all instants, latitudes (both hemispheres, equator, polar circles, poles), longitudes and use cases','Tests check sunrise at few mid-latitude sites against wide tolerances.',
  [B],[('sunrise, sunset, daylight_length',B)],observe=['Sunpos.sunrise','Sunpos.sunset','Sunpos.daylight_length'])
p('C17','Sunrise and sunset clock times are one event in three clocks',
  "sunrise(u) and sunset(u) for u in tst, utc and local denote the same event: tst - utc is the equation of time plus 4 min x longitude of the cell, local - utc is the UTC offset in force at the requested instant, and all are NaT exactly in polar day and night. Both belong to the true solar day of the requested instant.",
  ['inputs','configurations'],'all instants x longitudes x latitudes x time zones (daylight saving included) x use cases','Tests use UTC only.',
  [B],[('sunrise, sunset',B)],observe=['Sunpos.sunrise','Sunpos.sunset'])
p('C18','Incidence is the cosine of the angle between the sun and the surface normal',
  "For every cell, slope and orientation, incidence(slope, azimuth) is the scalar product of the surface normal with the sun's direction given by the result's declination and true solar time (surface azimuth zero south, positive east, as documented in Iqbal's equation 1.6.5a); it is in [-1, 1], for a horizontal surface it does not depend on the orientation, and it changes sign when the surface is flipped over.",
  ['inputs'],'all instants, locations, slopes 0-180, orientations -180-180, use cases','No test calls incidence.',
  [B],[('incidence',B)],observe=['Sunpos.incidence'])
p('C19','Air mass follows the published formulas, and is NaN below the horizon',
  'airmass(p), for each of the four parameterizations, equals its published formula of the zenith angle of the result, never below 1, is NaN exactly where the zenith is beyond 90 degrees, and does not decrease with the zenith angle; an unknown parameterization raises ValueError.',
  ['inputs'],'all zenith angles 0-180, parameterizations, algorithms and use cases','No test calls airmass.',
  [B],[('airmass',B)],observe=['Sunpos.airmass'])
p('C20','Extraterrestrial irradiance is ISC x ecf x max(0, cosz) x correction',
  'eth(ISC, none) equals ISC times ecf times max(0, cosz) at every cell, proportional to ISC, never negative and zero at night; perez_1990, skarveith_1998 and gonzalez_and_calbo_1999 multiply it by their published functions of the air mass or elevation; an unknown correction raises ValueError.',
  ['inputs'],'all cells x solar constants x corrections x use cases','No test calls eth.',
  [B],[('eth',B)],observe=['Sunpos.eth'])
p('C21','Results depend on the arguments only: no hidden state, no aliasing',
  'Calling any function never modifies its arguments; modifying an argument array after the call changes no result obtained from it; and repeating a call or a read, after any history of other calls and reads, gives the same values.',
  ['histories','programs'],'all sequences of writes to the caller arrays, calls with any use case, algorithm, engine and shape, and reads of any accessor of any earlier result',
  'Tests run each call once on fresh inputs; caches, in-place arithmetic and retained references need a history to show.',
  [U,C,B]+[V],[('copies of the inputs',U),('module state',L)],
  state=[dict(name='buffers',meaning='arrays owned by the caller',where='caller'),dict(name='results',meaning='Sunpos objects alive',where='caller')],observe=ACC)
p('C22','Concurrent calls do not interfere',
  'Calls and reads made at the same time from several threads return what they return alone, for every interleaving of their steps, whether the threads share a result object or not.',
  ['schedules'],'all interleavings, at the granularity of source lines, of 2-4 threads running any calls and reads',
  'The tests are single-threaded, and a stress test samples the schedules the operating system happens to choose.',
  [C,B,L],[('no shared mutable state',L),('numexpr engine',L+'ne_*.py')],observe=ACC)
p('C23','utils.datetime: UTC and true solar time convert to each other',
  'true_solar_time(t, lon) is t + 4 min x lon + equation of time (that of the default algorithm at t), and universal_time_coordinated(t, lon) is t minus as much, so that each undoes the other to within half a second plus 0.09 seconds per degree of longitude (what the equation of time changes in between). The conversion of arrays of K instants and J longitudes, whatever the type of the times, gives the K x J conversions of the pairs, with unit dimensions squeezed out; they differ by exactly 4 minutes per degree of longitude.',
  ['inputs'],'all instants 1700-2250, longitudes, and sizes','No test imports the module (it raised for every input).',
  [D],[('conversions',D)],observe=['utils.datetime.true_solar_time','utils.datetime.universal_time_coordinated'])
p('C24','The command line prints what the library computes',
  'sunwhere at TIME LAT LON prints, for every time, hemisphere-suffixed latitude and longitude, algorithm, refraction flag and time zone, the declination, distance, zenith, elevation, azimuth, equation of time, sunrise and sunset that the library returns for that instant (wall time in that zone, or now) and location, correctly rounded and signed, and exits 0; a time, zone, coordinate or algorithm that is not valid makes it exit with an error and print no ephemeris.',
  ['inputs','configurations'],'all times x sites (four quadrants, polar) x algorithms x refraction x time zones, and malformed arguments','No test runs the command line.',
  ['src/sunwhere/_cli/main.py','src/sunwhere/_cli/position.py'],[('argument parsing','src/sunwhere/_cli/main.py'),('report','src/sunwhere/_cli/position.py')],observe=['stdout and exit status'])
p('C25','JPL Horizons files are requested and read faithfully',
  'The request sent for an ephemeris carries the given site, period and step, and is refused, before anything is sent, if it exceeds 90024 lines; a Horizons reply is stored as received, unless it holds no ephemeris, which is an error and stores nothing, and reading a stored reply gives one UTC-labelled row per data line, with azimuth zero south, zenith = 90 - elevation and ecf = 1/distance squared; loading the ephemeris of a year gives one row every 12 minutes of it, at the site asked for, after any history of other loads, of network failures and of such errors, and requests nothing once the year is kept.',
  ['inputs','histories'],'all sites, periods, steps and file contents in the Horizons layout','No test touches the module (it needs the network).',
  [J],[('request',J+':get_jpl_ephemeris'),('parser',J+':read_jpl_ephemeris_file')],observe=['URL requested','stored file','DataFrame'])
p('C26','All algorithms agree with NREL within their documented accuracy',
  'Between 2020 and 2050 and without refraction, the sun direction of psa and soltrack is within 0.015 degrees of that of nrel, and that of iqbal within 0.5 degrees (plus the rounding of each algorithm); declination, equation of time and distance correction agree accordingly (0.006 degrees, 0.08 minutes and 0.0002 for psa and soltrack; 0.45 degrees, 0.55 minutes and 0.0008 for iqbal).',
  ['inputs','configurations'],'all instants 2020-2050 x all locations x engines x use cases','The tests use a wider tolerance at few instants and do not compare azimuths.',
  [L],[('the four algorithms',L)],observe=ACC)
p('C27','The sun moves continuously: no jumps at midnight, month, leap or year ends',
  'For every location and algorithm, without refraction, between two instants s seconds apart (up to an hour) the sun direction moves by 13.7 to 15.01 arc-seconds per second of time (plus rounding), and declination, equation of time and distance correction by no more than 0.4 degrees, 0.51 minutes and 0.0006 per day; the one exception is iqbal at the end of a year, where its day angle restarts: up to 0.15 degrees, and 0.1 degrees, 0.5 minutes and 0.00004 for the others. This holds for instants with fractions of a second too, which may be taken as those of the last whole second.',
  ['inputs','histories'],'all pairs of close instants, around all calendar boundaries 1700-2250, all locations, algorithms and engines','Tests look at isolated instants; an off-by-one day in leap years is below their tolerance.',
  [L],[('calendar arithmetic',L+'*_iqbal.py'),('angle wraps',L)],observe=ACC)
p('C28','The sun is on the horizon at its sunrise and sunset, rising and setting',
  'Where the sun rises and sets, the library, asked (without refraction) for the sun at the UTC times that it gives as sunrise and sunset, puts it on the horizon: its elevation is zero to within 0.03 degrees, plus what declination and equation of time change between the instant of the request and the event (0.4 degrees and 0.51 minutes per day). Unless the sun grazes the horizon (its elevation grows by less than 0.05 degrees per degree of hour angle), it is higher ten minutes after sunrise and lower ten minutes after sunset. Where it does not rise and set there is no event.',
  ['inputs','configurations','histories'],'all instants 1700-2250, all locations between the poles, all longitudes, algorithms, engines, use cases of both requests, refraction on/off in the first',
  'It relates two answers of the library, at times that depend on the first one; no test asks twice.',
  [B,L],[('sunrise equation',B+':sunrise'),('true solar time to UTC',B),('position',L)],observe=ACC)
p('C29','Arguments mean the same however they are written',
  'A request means the same whether its latitudes, longitudes and times are scalars (for one place), lists, tuples, ranges, arrays (of any number type, byte order, stride, or read-only; of datetime64 of any unit, datetimes or strings), pandas Series or Index or xarray DataArray (whatever their own labels): it is served as the same request written in plain float64 and datetime64[s] arrays, gives the same results, and results are labelled with exactly those numbers and instants.',
  ['inputs','configurations'],'all pairs of 28 ways of writing latitude and longitude, with 24 of writing times, any values that these hold exactly, all use cases, algorithms and engines',
  'Tests use plain arrays and lists only.',
  [U,C,B,V],[('conversion of arguments',U),('validation',V+':check_timelatlon'),('labels',B+':Sunpos.__init__')],observe=ACC)
p('C30','The library neither depends on nor changes the process it is used in',
  'Results are the same in every process: whatever its time zone, locale, hash seed, optimisation flags, working directory, threads of numexpr, warning filters, random seeds, and NumPy, pandas, xarray, decimal and interpreter settings, and whenever these change. Importing the library, calling it (in requests that are served or refused) and reading results leave all of those settings, the environment variables, the import path, the working directory and its files, the threads and the output streams as they were.',
  ['configurations','histories'],'all environments and sequences of changes of settings, requests, refused requests',
  'All tests run in one process, with one environment, and look at results only.',
  ['src/sunwhere/__init__.py',U,C,B,L,D],[('module level code','src/sunwhere'),('evaluation',C+':evaluate')],observe=ACC)
p('C31','A solar chart shows the sun where the library says it is',
  'A chart (make_solar_chart, SolarChart) for a place, a time zone and the time of a user, polar or rectilinear, consists of these lines, each through the azimuths and elevations that the library (default algorithm, with refraction) gives for its instants, and of no others: 21 June and 21 December (every 2 minutes of the clock of the zone); each hour of the clock, or those asked for (every day of the year of the chart); the 15th of each month but June and December, or the days asked for, and 21 June and 21 December (every 5 minutes); and, if there is a time of a user, its day, its time of UTC every day of the year, and the sun at it. Times that the clock shows never or twice are left out. Without a time of a user it is a chart of now: of the year, and headed by the abbreviation, that the zone has at this moment, whenever that is. What lies between 21 June and 21 December is filled. Labels of hours stand at the sun of 21 June at that hour (those above the horizon only), labels of days where their lines cross the south, the points of the compass and the ticks at their azimuths and elevations; the latitude, longitude, zone and time of the user are written as given.',
  ['inputs','configurations'],'all places between the poles, time zones, years, instants (around changes of clocks too), moments at which a chart of now is asked for, polar or not, default lines or chosen days, months, hours and minutes',
  'Nothing tests the charts.',
  ['src/sunwhere/_cli/solar_chart.py'],[('lines and labels','src/sunwhere/_cli/solar_chart.py:SolarChart.draw_solar_grid'),('the user','src/sunwhere/_cli/solar_chart.py:SolarChart.draw_solar_path')],observe=['lines, texts, ticks and transformations of the figure'])
p('C32','The benchmark scores are the statistics of the differences',
  'For every table of ephemerides, the scores of the benchmark are, for each algorithm and each of zenith, azimuth and distance correction (or the clear-sky irradiances, in the day of the reference), the mean, standard deviation, mean absolute value, root mean square, and the quantiles 0.66 and 0.90 of the absolute deviations from the mean, of its differences from the reference at the same instants, azimuth differences being taken the short way around. The ephemerides of the library in that table are those of sites, without refraction unless it is asked for; those of the soltrack package are what it says, of these instants and this place.',
  ['inputs'],'all tables of up to 4 algorithms and 24 instants, differences of 0 to 27 degrees, azimuths around due north',
  'Nothing tests the benchmark.',
  ['src/sunwhere/_cli/benchmark.py'],[('differences','src/sunwhere/_cli/benchmark.py:calc_residues'),('scores','src/sunwhere/_cli/benchmark.py:get_bulk_ephemeris_errors')],observe=['get_bulk_ephemeris_errors, get_bulk_clearsky_errors, sunwhere_ephemeris'])
p('C33','Results are values: copies of a result read exactly as it does',
  'A copy of a result made by copy.copy, copy.deepcopy or pickle (any protocol from 2; here, or sent to another process, to be read there or sent back), and copies of copies, can be made at any time and read exactly as the result does: the same values, dimensions, coordinates, attributes and types, the same times in the same time zone, and the same record of what was requested, whatever was read before, and also when the original is gone. What is written in the arrays or attributes read from a deep or unpickled copy changes nothing of the original, nor the reverse.',
  ['inputs','histories'],'all histories of making, copying in 8 ways, reading, writing in and dropping results, of all use cases, algorithms, engines and kinds of time zones',
  'No test copies a result; results are sent to and from processes (multiprocessing, dask, joblib) and kept in caches by their users.',
  [B],[('state of a result',B+':Sunpos.__init__'),('accessors',B)],observe=ACC+['copies'])
p('C34','A benchmark run compares every package at the same instants and site',
  'A run of the benchmark for a year and a site asks Horizons for the ephemeris of that year at that site every 12 minutes, unless an earlier run for them kept it (one for any other year or site, however close, does not count; a failure of the network, or a reply that is an error, keeps nothing); it asks every package for the positions at the instants of that reply, at that site, and prints, best first, one line per algorithm and variable with the scores of its differences from Horizons: zenith and azimuth (zero south, the short way around) in arc-seconds, 1/distance squared in thousandths, and the clear-sky irradiances by day; for every site, on the equator and the prime meridian too.',
  ['inputs','histories'],'all histories of runs in one directory, for all years and sites, with a network that fails','Nothing tests the benchmark, which needs the network and other packages.',
  ['src/sunwhere/_cli/benchmark.py'],[('run','src/sunwhere/_cli/benchmark.py:run_benchmark'),('conventions of the packages','src/sunwhere/_cli/benchmark.py:pvlib_ephemeris, sg2_ephemeris, sunwhere_ephemeris'),('printing','src/sunwhere/_cli/benchmark.py:print_bulk_errors')],observe=['requests sent','calls of the packages','printed tables'])
p('C35','An interrupted download never passes for an ephemeris',
  'Wherever a load of the ephemeris of a year, or a request for a file, is interrupted (the process ends, at any point), the file of a request is whole or is not there, and the next load that is not interrupted, and for which the network works, gives every instant of the year, once, with the values that Horizons gives.',
  ['crash_points','histories','fault_sequences'],'all points of the code of a load at which the process can end, histories of up to 3 interruptions','Tests do not interrupt anything; the window is short.',
  [J],[('files are written under another name',J+':get_jpl_ephemeris'),('the year and the months',J+':load_jpl_ephemeris')],observe=['DataFrame','stored file'])
p('C36','What a call leaves unsaid has its documented value, however the rest is said',
  'The functions have the documented parameters: a call that gives the first of its arguments by position and others by name, in any order, and leaves out any that may be left out, gives the same as the call that says them all. Left out, the algorithm is psa, with refraction and the numexpr engine; the solar constant is 1361.1 W/m2, without correction for air mass; the air mass is that of gueymard_2003; sunrise and sunset are in degrees; the command line is for psa with refraction, UTC and 36.949N 3.822W; charts are polar, in UTC, and of no time of a user; requests to Horizons are for every minute at sea level, and a load for 2024 at 3.822W 36.949N. A call with a name that does not exist, an argument given twice, one too many, or without one that has no default, is refused.',
  ['inputs','configurations'],'all ways of saying calls of 14 functions: what is given, by position or by name, in which order, with which values','Tests say all options by name, in a fixed order, or none.',
  [U,B,D,'src/sunwhere/_cli',J],[('signatures of the use cases',U),('signatures of the accessors',B+':Sunpos'),('options of the command line','src/sunwhere/_cli/main.py')],observe=ACC+['CLI output','HTTP request'])
p('C37','Loads of ephemerides at once do not spoil each other',
  'However many loads of ephemerides (of the same year and site, or of others) are under way at once in one place of the disk, in threads or in processes, and whatever a load before left there, each gives every instant of its year, once, with the values that Horizons gives for it, unless the network refuses one of its own requests; no file of replies is left torn, and a later load gives the same, with no more requests if one had succeeded.',
  ['schedules','histories','fault_sequences'],'all interleavings of two or three loads, with failures of the network, over files that failed loads left','Tests load nothing; races need a load that ends while another reads.',
  [J],[('the months and the year',J+':load_jpl_ephemeris'),('files are written under names of their own',J+':get_jpl_ephemeris')],observe=['DataFrame','stored file','HTTP request'])
p('C38','Speed tests time the calls they name, per step and place, and are kept',
  'A test of the speed of a package does the work it is asked for (that many instants at that many places, or on a grid of that many latitudes and longitudes, all of them on the Earth) with the method and the engine it names, without refraction, as many times as it is asked for, and gives the time it took, in microseconds per instant and place: the mean and the (population) standard deviation over the repetitions. The table of the tests holds, for each method, number of instants and kind of places, the figure of that test (none for the large grids at more than 1000 instants); the figures of a method whose tests all ended are kept, and given again without another test until they are removed; those of a method for which a test fails are not.',
  ['inputs','histories','fault_sequences'],'all works of up to 7x7 places, 1441 instants and 5 x 3 repetitions, for 12 methods; histories of loads of the table, failures and losses','Nothing tests the benchmark; real clocks and other packages would be needed.',
  ['src/sunwhere/_cli/benchmark.py'],[('one test','src/sunwhere/_cli/benchmark.py:speed_meter'),('the table','src/sunwhere/_cli/benchmark.py:load_speed_tests')],observe=['calls of the packages','figures','stored tables'])
p('C39',"The benchmark's plots show the figures measured, each where its name is",
  'The plot of the accuracy has one panel for each method of the table, under its name, but for those that others stand for (the numpy engines, and the soltrack package): ranked by the scores given (in that of a benchmark, by the mean absolute difference of the zenith; the most accurate first), or in the order of the table. In each, the bluish and the reddish curve are the distributions of the absolute differences, in degrees, of its zenith and of its azimuth (the short way around) from the reference; the title counts the samples. The plot of the times has one panel for each of 1, 100 and 10x10 places, and in its cells, by number of instants and method, the seconds that the test took in total: the figure in microseconds per instant and place, times the instants and the places. Both are kept in the file asked for, and are drawn for whoever asks.',
  ['inputs'],'all tables of the 14 methods (and others), with differences of 1e-6 to 1 degree, also across north; all tables of times','Nothing tests the plots; what is drawn is seen by nobody when tests run.',
  ['src/sunwhere/_cli/benchmark.py'],[('accuracy','src/sunwhere/_cli/benchmark.py:plot_accuracy'),('times','src/sunwhere/_cli/benchmark.py:plot_exec_time'),('the plot of a run','src/sunwhere/_cli/benchmark.py:run_benchmark')],observe=['matplotlib figure'])
open(__import__('pathlib').Path(__file__).resolve().parents[1]/'properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); assert len(x['title'])<=80,(x['id'],len(x['title']))
    print(x['id'],x['title'])
