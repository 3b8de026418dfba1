"""Single source of the property list: writes properties.jsonl and MANIFEST.json.

   python tools/props.py     (run in /verif)
"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, quant, why, files, mech, observe, state=None):
    e = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=['pyrtlib/' + f for f in files],
                          mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        e['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(e)


RT, AB, UT, TB, WF = 'rt_equation.py', 'absorption_model.py', 'utils.py', 'tb_spectrum.py', 'weighting_functions.py'

p('C01', 'Layered radiative transfer gives the exact discrete solution',
  'For any temperature profile and any positive layer opacities, the total radiance is the attenuated background plus the sum over layers of the layer emission attenuated by the opacity between that layer and the antenna, with layer source (B_near + B_far exp(-tau))/(1+exp(-tau)). '
  'Looking up the background is the 2.728 K cosmic background and integration runs from the lowest level; looking down it is emissivity times the emission at the lowest-level temperature and integration runs from the highest level. '
  'When the total opacity reaches 125 Np the background is zero and total, atmospheric and mean-radiating radiances coincide.',
  ['inputs', 'configurations'], 'All temperature profiles 50-500 K, layer opacities 1e-9..100 Np, frequencies 0.1-3000 GHz, emissivity 0..1, both viewing directions.',
  'Tests compare brightness temperatures of six standard atmospheres with tabulated values, to 1e-5; they never reach opaque atmospheres and never vary emissivity, so the cutoff and the surface term are not pinned.',
  [RT], [('layer recursion', 'rt_equation.py:RTEquation.planck'), ('opaque cutoff expmax', 'rt_equation.py:RTEquation.planck')], ['all seven values returned by the radiative transfer step'],
  [('viewing direction', 'upwelling or downwelling', 'RTEquation._from_sat'), ('surface emissivity', 'emissivity used for the surface term', 'RTEquation._emissivity')])
p('C02', 'Radiance lies between the coldest and the warmest emitter',
  'For any profile the total radiance lies between the smallest and the largest Planck radiance of the levels and the background (and 0 and the largest when emissivity is below 1), every cumulative opacity and atmospheric radiance is monotone along the path, and an isothermal scene with a unit-emissivity surface of the same temperature is exactly at that temperature.',
  ['inputs', 'configurations'], 'All temperature profiles 50-500 K, layer opacities 0..20 Np, frequencies 0.1-3000 GHz, emissivity 0..1, both viewing directions.',
  'The bound must hold for every profile; the tests sample six climatological profiles.',
  [RT], [('convex combination of level emissions', 'rt_equation.py:RTEquation.planck')], ['total radiance, atmospheric radiance profile, opacity profile'])
p('C03', 'Planck radiance and brightness temperature are mutual inverses',
  'Converting a temperature to modified Planck radiance and back returns the same temperature, converting a positive radiance to a temperature and back returns the same radiance, zero radiance maps to zero temperature, and the conversion is strictly increasing in temperature.',
  ['inputs'], 'All temperatures 1-1000 K, radiances 1e-12..1e6, frequencies 0.1-3000 GHz.',
  'An identity over two continuous variables; the tests call each direction on single values.',
  [RT, UT], [('Planck inversion', 'rt_equation.py:RTEquation.bright'), ('modified Planck function', 'utils.py:tk2b_mod'), ('double-precision variant', 'utils.py:planck-related helpers')], ['returned temperature and radiance'])
p('C04', 'Exponential layer integration is exact and safe at degenerate layers',
  'Integrating a non-negative profile gives, per layer, thickness times the logarithmic mean of the two bounding values, or their common value when they differ by less than 1e-9, or their average (zero if zero-handling is off) when exactly one of them is zero; the total is the scale factor times the sum over the requested layers. '
  'A negative value stops the integration with a warning and returns what was accumulated so far, unscaled.',
  ['inputs'], 'Profiles of 2-4 levels with values 0..1e6, thicknesses 0..100 km, every start level, both zero-handling modes, any factor.',
  'The branch taken depends on the profile values; the test has one profile.',
  [RT], [('layer mean', 'rt_equation.py:RTEquation.exponential_integration')], ['layer integrals, total, warning'])
p('C05', 'Plane-parallel slant paths scale with the cosecant of elevation',
  'Without ray tracing every simulation uses as slant path the height differences of the profile divided by the sine of the elevation angle, zero for the first level, independently for each requested angle.',
  ['inputs', 'configurations'], 'All height profiles (3-4 levels), all elevation angles 5-90 degrees, one and two angles per run.',
  'Tests use 90 degrees and a handful of other angles and compare only final brightness temperatures of fixed atmospheres.',
  [TB], [('airmass', 'tb_spectrum.py:TbCloudRTE.execute')], ['per-layer opacities and integrated quantities of a simulation'])
p('C06', 'Refractive ray tracing follows the Bean-Dutton construction',
  'Near zenith or nadir (within one degree) the slant paths equal the height differences; a refractive index below one yields no result and a warning; ducting stops the trace with a warning; in every other case the first path is zero and each layer path is the one given by the documented spherical-shell bending construction.',
  ['inputs'], 'Height profiles of 2-3 levels within 0-30 km, refractive indices 1..1.0005, elevations 0.1-90 degrees.',
  'The geometry depends continuously on five inputs and on branches (equal indices, index exactly one, ducting) never visited by the two test angles.',
  [RT], [('layer bending and arc length', 'rt_equation.py:RTEquation.ray_tracing')], ['returned slant path lengths, warnings'])
p('C07', 'Vapour pressure and density follow Goff-Gratch and the ideal gas law',
  'Vapour pressure is relative humidity times the Goff-Gratch saturation pressure, over water at every level, or over ice at exactly the levels colder than 263.16 K when ice is requested; vapour density is vapour pressure over (gas constant times temperature). '
  'Both are linear in relative humidity.',
  ['inputs', 'configurations'], 'All temperatures 60-450 K and humidities 0..5 on profiles of 2-3 levels, ice on and off, every combination of levels above and below the ice limit.',
  'No test ever requests ice; the water branch is checked only through final brightness temperatures.',
  [RT], [('Goff-Gratch', 'rt_equation.py:RTEquation.vapor')], ['vapour pressure and density profiles'])
p('C08', 'Saturation pressures and mixing-ratio humidity switch to ice where asked',
  'Saturation pressure over water and over ice equals the documented Goff-Gratch polynomials of temperature; saturation mixing ratio is 1000 epsilon es/(p-es) in g/kg; and with a switching temperature given, saturation pressure, saturation mixing ratio and relative humidity derived from mixing ratio use ice at exactly the levels at or below it and water elsewhere, at every level of the profile independently, leaving the caller\'s arrays alone; without one they always use water.',
  ['inputs'], 'All pressures 300-1100 hPa, temperatures 100-340 K, mixing ratios 0..500 g/kg, switching temperatures 150-300 K or none, profiles of 1-3 levels with any mixture of warm and cold levels.',
  'Tests evaluate the formulas at a few values and never a profile crossing the ice limit.',
  [UT], [('saturation formulas', 'utils.py:satvap, satmix, eswat_goffgratch, esice_goffgratch'), ('humidity', 'utils.py:mr2rh')], ['returned pressures, mixing ratios, humidities'])
p('C09', 'Unit and humidity conversions are mutually consistent',
  'Each pair of opposite conversions (vapour pressure and mixing ratio, density and mixing ratio, kelvin and celsius, pressure and height, frequency axis conversions) returns the original value, and each one equals its documented physical definition, for scalars and arrays alike; volume mixing ratios become mass mixing ratios by the molar mass of the gas named by the gas constant.',
  ['inputs'], 'All physically meaningful values (pressure 0.001-1200 hPa, temperature 60-450 K, mixing ratio 0..1000 g/kg).',
  'Round trips are identities over continuous variables; the tests check single values per function.',
  [UT], [('conversions', 'utils.py:mr2rho, rho2mr, mr2e, e2mr, ppmv2gkg, ppmv_to_moleculesm3, kgkg_to_kgm3, to_celsius, to_kelvin, pressure_to_height, height_to_pressure, dewpoint2rh, ghz_to_mm')], ['converted values'])
p('C10', 'Hypsometric layer thickness and virtual temperature',
  'Virtual temperature is temperature scaled by (1 + r/epsilon)/(1 + r), and the height of each pressure level is the sum, from the station upward, of (Rd/g) times mean virtual temperature times the log pressure ratio, so it is zero at the station, increases as pressure decreases, and is independent of how the array is ordered beyond that.',
  ['inputs'], 'All profiles of 2-4 levels with pressures 0.001-1200 hPa, temperatures 60-450 K, mixing ratios 0..0.5.',
  'Existing tests check one layer.',
  [UT], [('hypsometric equation', 'utils.py:thickness, virtual_temperature, geopotential helpers')], ['returned heights and temperatures'])
p('C11', 'Refractivity profile follows Thayer',
  'At each level dry refractivity depends only on that level\'s dry pressure and temperature and wet refractivity only on its vapour pressure and temperature, both by the Thayer formulas with their compressibility factors, and the refractive index is 1 + 1e-6 times their sum.',
  ['inputs'], 'All profiles of 1-3 levels, pressure 1e-4..1200 hPa, vapour pressure 0..300 hPa, temperature 60-450 K.',
  'Only exercised through integrated quantities of fixed atmospheres.',
  [RT], [('Thayer refractivity', 'rt_equation.py:RTEquation.refractivity')], ['dry, wet refractivity and refractive index'])
p('C12', 'Cloud absorption is proportional to local water content',
  'At every level liquid absorption is zero unless liquid is present and otherwise 0.1886-type Rayleigh absorption -Im((eps-1)/(eps+2)) of the selected dielectric model, proportional to liquid content and frequency; ice absorption is zero unless ice is present and otherwise proportional to ice content over wavelength, in Np/km.',
  ['inputs', 'configurations'], 'All temperatures 230-320 K, contents 0..100 g/m3 (absent, present, mixed over 1-2 levels), frequencies 0.1-3000 GHz, every liquid model.',
  'Tests run one cloudy atmosphere; presence/absence per level and each liquid model are not varied independently.',
  [RT, AB], [('cloud absorption', 'rt_equation.py:RTEquation.cloudy_absorption'), ('liquid model', 'absorption_model.py:LiqAbsModel.liquid_water_absorption')], ['liquid and ice absorption profiles'])
p('C13', 'Cloud layers are located and integrated from base to top',
  'Cloud base and top heights are mapped to the profile levels at those heights, integrated cloud water is the trapezoidal sum over every layer from base to top of every cloud, and the radiating temperature of the lowest cloud is that of the radiance emitted between its base and top referred to the base, with no result when the opacity below exceeds 125 Np.',
  ['inputs', 'configurations'], 'All density profiles and paths over 3-5 levels, every placement of one or two clouds, all opacity profiles.',
  'One cloud placement is tested, and only through brightness temperature.',
  [RT, TB], [('cloud column', 'rt_equation.py:RTEquation.cloud_integrated_density'), ('cloud radiating temperature', 'rt_equation.py:RTEquation.cloud_radiating_temperature'), ('level lookup', 'tb_spectrum.py:TbCloudRTE.init_cloudy')], ['integrated liquid/ice, cloud radiating temperature'])
p('C14', 'Clear-sky absorption is composed locally from the gas models',
  'At each level wet absorption is the water vapour model\'s output and dry absorption is oxygen plus nitrogen (if a nitrogen model is selected) plus ozone (if an ozone profile is given and an ozone model selected), all evaluated at that level\'s own dry pressure, inverse temperature, vapour pressure and ozone density, and converted from refractivity (ppm) to Np/km by 0.182 f ln(10)/10.',
  ['inputs', 'configurations'], 'All profiles of 1-3 levels, frequencies 0.1-3000 GHz, ozone given or not, nitrogen and ozone models selected or not.',
  'Composition and locality must hold for any gas absorption values; tests see only their sum for fixed atmospheres.',
  [RT], [('composition', 'rt_equation.py:RTEquation.clearsky_absorption')], ['wet and dry absorption profiles'])
p('C15', 'Water vapour absorption equals the published line-plus-continuum sum',
  'For every water vapour model, for any line list, temperature, pressure and humidity, the line term is the sum over lines of strength, pressure- and temperature-scaled widths, shifts and (where the model defines it) speed-dependent shape with the 750 GHz cutoff on each resonance, and the continuum term is the published self plus foreign continuum; without vapour both are zero.',
  ['inputs', 'configurations'], 'All 13 models; any line parameters (1-2 symbolic lines), frequencies 1-1000 GHz, temperatures 160-333 K (with one line 0.1-3000 GHz, 100-428 K), dry pressure and vapour pressure up to 1100 hPa; speed-dependent lines on and off.',
  'The tests pin brightness temperatures at a few frequencies for each model; line shapes beyond those frequencies, cutoff boundaries and per-line exponents are untested.',
  [AB], [('line and continuum sum', 'absorption_model.py:H2OAbsModel.h2o_absorption')], ['line and continuum refractivity'])
p('C16', 'Oxygen absorption equals the published line-mixing sum',
  'For every oxygen model, for any line list and state, the line term is the sum over lines of strength times the pressure-broadened, line-mixed, frequency-symmetrised shape (with the first- or second-order mixing, magnetic-dipole width and dry/moist broadening that the model prescribes), plus the non-resonant Debye continuum; negative sums are clipped to zero by every model that does so (all but R98), and the gain of second-order mixing models is orthogonalised over the lines the model prescribes.',
  ['inputs', 'configurations'], 'All 12 models; any line parameters (symbolic lines), frequencies 0.1-3000 GHz, temperatures 100-428 K, dry pressure and vapour pressure up to 1100 hPa.',
  'The tests pin brightness temperatures at a few frequencies; the individual line parameters and the model-dependent branches are not separable there.',
  [AB], [('line mixing sum', 'absorption_model.py:O2AbsModel.o2_absorption')], ['line and continuum refractivity'])
p('C17', 'Collision-induced nitrogen absorption per model',
  'For every nitrogen model absorption equals the published expression (model-specific coefficient, temperature exponent and frequency dependence) times the squared dry pressure and squared frequency, is never negative, and is continuous in all inputs.',
  ['inputs', 'configurations'], 'All nitrogen models, temperatures 60-450 K, dry pressures 0-1200 hPa, frequencies 0.01-3000 GHz.',
  'Contribution is small in the tested channels; coefficient errors stay within test tolerances except in a few windows.',
  [AB], [('N2 continuum', 'absorption_model.py:N2AbsModel.n2_absorption')], ['nitrogen absorption'])
p('C18', 'Ozone absorption is the windowed sum of broadened lines',
  'For every ozone model absorption is proportional to ozone density and is the sum over lines, of strength scaled by temperature, lower-state energy and vibrational factors, of the shape formed with the pressure and Doppler widths, restricted to the model\'s frequency window.',
  ['inputs', 'configurations'], 'All ozone models, any line parameters (symbolic lines), frequencies 0.1-3000 GHz, temperatures 60-450 K, pressures 1e-4..1200 hPa.',
  'Tests run one ozone profile; line-window boundaries and temperature exponents are not exercised.',
  [AB], [('O3 line sum', 'absorption_model.py:O3AbsModel.o3_absorption')], ['ozone absorption'])
p('C19', 'Liquid water dielectric constant: relaxation plus resonance',
  'The complex dielectric constant equals the static value minus relaxation and resonance contributions with published temperature-dependent coefficients at every temperature and frequency, for both the earlier double-Debye and the later model, and the imaginary part of the double-Debye models keeps the absorbing sign.',
  ['inputs', 'configurations'], 'Temperatures 200-373 K, frequencies 0.01-3000 GHz.',
  'One value is tested.',
  [UT], [('dielectric model', 'utils.py:dilec12'), ('double-Debye', 'absorption_model.py:LiqAbsModel.liquid_water_absorption')], ['complex dielectric constant'])
p('C20', 'Complex error function helper is the published rational approximation',
  'The complex error function used by the Voigt and speed-dependent shapes equals the published 7/7 (Hui-type) rational approximation w(z) for every argument in the upper half plane, and 2 exp(-z^2) minus the conjugate of w at the conjugate argument in the lower half plane.',
  ['inputs'], 'All complex arguments with real and imaginary part between -100 and 100.',
  'No test calls it directly.',
  [UT], [('dcerror', 'utils.py:_dcerror')], ['returned complex value'])
p('C21', 'Selecting a model loads that model\'s own spectroscopy',
  'For every supported model name, loading spectroscopy fills each line parameter from the correspondingly named field of that model\'s own data with its documented units and signs, independently of which models were selected before, and an unsupported name raises an error without altering results of later valid selections.',
  ['histories', 'configurations', 'inputs'], 'All model names, any data values (symbolic data fields), all histories of two model selections.',
  'Tests select models in a fixed order and see only brightness temperatures.',
  [AB, '_lineshape'], [('line list loading', 'absorption_model.py: set_ll of each gas'), ('model registry', 'absorption_model.py:AbsModel.implemented_models')], ['line parameters in effect', 'absorption after a history of selections'],
  [('selected model', 'class-level model name per gas', 'absorption_model.py:*.model'), ('line list', 'class-level line list per gas', 'absorption_model.py:*.*ll')])
p('C22', 'Perturbed spectroscopy acts only on the parameter and run it is given for',
  'Supplying an uncertainty dictionary whose values equal the model\'s nominal ones gives the same absorption as supplying none (models before R18 multiply the water continuum by the dictionary\'s adjustment factors, nominally one); perturbing one parameter changes only the terms that depend on it, and parameters a model does not use have no effect; a later run without the dictionary gives the unperturbed result and no caller array is modified; a dictionary can be built for every model, and building one does not change the model used by later computations (today it does: known finding).',
  ['inputs', 'histories', 'configurations'], 'All models with uncertainty support, any parameter values, histories of perturbed and unperturbed evaluations.',
  'Tests perturb a few parameters of one model.',
  [AB], [('parameter substitution', 'absorption_model.py: *_absorption with amu'), ('reload', 'tb_spectrum.py:TbCloudRTE._init_linelist')], ['absorption with and without the dictionary'])
p('C23', 'Parameter perturbation shifts exactly the requested value',
  'Perturbing a spectroscopic parameter by its uncertainty in mode "max", "min" or "non" shifts the requested element of the requested parameter (every element when no index is given or the parameter or its uncertainty is a single number), and no other parameter, by plus, minus or zero times its uncertainty; dictionary values are the model\'s nominal ones in documented units (oxygen line widths and shifts in MHz being 1000 times those in GHz) with no uncertainty until one is supplied (the adjustment factors of models before R18 excepted); unknown modes raise ValueError, the unimplemented random mode NotImplementedError; repeating a perturbation from the same reference gives the same values.',
  ['inputs', 'configurations', 'histories'], 'All parameters, all indices, all modes, any values and uncertainties; sequences of perturbations.',
  'Tests check selected entries of selected parameters.',
  ['uncertainty/absmod_uncertainty.py'], [('perturbation', 'uncertainty/absmod_uncertainty.py:AbsModUncertainty.parameters_perturbation')], ['returned dictionary'])
p('C24', 'Uncertainty propagation follows the first-order formula',
  'For aA, aA+bB, aA-bB, A*B, A/B and A^a (A positive) the propagated uncertainty is the square root of the first-order quadratic form of partial derivatives, input uncertainties and covariance, non-negative, and zero when all input uncertainties are zero; an unsupported operation raises ValueError.',
  ['inputs', 'configurations'], 'All operand values (non-zero), all uncertainties and covariances, every supported operation.',
  'One value per operation is tested.',
  ['uncertainty/absmod_uncertainty.py'], [('propagation', 'uncertainty/absmod_uncertainty.py:AbsModUncertainty.uncertainty_propagation')], ['returned value and uncertainty'])
p('C25', 'A simulation accepts either profile orientation and leaves its inputs alone',
  'A profile given top-down gives the same simulation as the same profile given bottom-up (all level quantities, including ozone and cloud water, are reordered together), heights are taken relative to the lowest level, non-monotonic heights are rejected, and the caller\'s arrays are never modified.',
  ['inputs', 'configurations', 'histories'], 'All strictly monotonic or non-monotonic height profiles of 3-4 levels, any level values, repeated constructions from the same arrays.',
  'Tests only use bottom-up profiles starting at height zero, where the mutation and the orientation test are invisible.',
  [TB], [('orientation and height reference', 'tb_spectrum.py:TbCloudRTE.__init__'), ('cloud setup', 'tb_spectrum.py:TbCloudRTE.init_cloudy')], ['profile arrays in effect, caller arrays'])
p('C26', 'A simulation composes its parts per frequency and angle, without cross-talk',
  'Each reported quantity for a frequency and an angle (opacities by species, brightness temperatures, radiating temperatures, columns) equals the one obtained by composing vapour, refractivity, path, absorption, integration and radiative transfer for that frequency and angle alone, is placed in the row for that frequency and angle, and does not depend on other frequencies, angles, or previously executed simulations; a simulation executed again after its settings were changed (direction, emissivity, path, ice, cloud, model, perturbation) gives what the new settings ask for, and results returned earlier stay as they were.',
  ['inputs', 'configurations', 'histories'], 'Profiles of 2-3 levels (one of 40), up to 2 frequencies and 2 angles (12 and 4), clear and cloudy, up and down, repeated, changed and interleaved executions.',
  'Tests run one frequency set and angle set per process order; cross-talk shows only in combinations.',
  [TB], [('composition', 'tb_spectrum.py:TbCloudRTE.execute')], ['returned table and per-layer dictionary'],
  [('viewing direction and emissivity', 'class-level state set by each simulation', 'RTEquation._from_sat, RTEquation._emissivity')])
p('C27', 'Simulation settings are validated and apply to the simulation they are set on',
  'Setting the viewing direction or the surface emissivity accepts exactly the documented kinds of value (boolean; float broadcast to all frequencies, or per-frequency array), rejects others with an error leaving the old value in effect, and each frequency is simulated with its own emissivity even when several simulations are configured before running; the absorption model selected for a simulation is used for water vapour, oxygen, nitrogen and cloud liquid alike (a simulation run after another one was configured uses the model selected last: known finding).',
  ['inputs', 'configurations', 'histories'], 'Any emissivity values, kinds of argument, two simulations configured and executed in either order.',
  'Tests set a single scalar emissivity on one simulation.',
  [TB], [('setters', 'tb_spectrum.py:TbCloudRTE.satellite, emissivity'), ('per-frequency emissivity', 'tb_spectrum.py:TbCloudRTE.execute')], ['settings in effect, brightness temperatures'])
p('C28', 'Weighting functions are transmittance times absorption',
  'The weighting function at a level is the absorption there times the exponential of minus the opacity between that level and the sensor (for a satellite all layers from the one ending at that level up to the top; for a ground sensor all layers up to and including the one ending at that level), computed on the grid 0, step, ... up to the first point at or above the profile top, onto which all profile quantities are linearly interpolated; settings changed between two computations apply to the second as if set from the start; a normalised plot divides each curve by its own maximum; plotting leaves the weighting functions passed in unchanged and labels a satellite curve with its frequency and the height at which the curve drawn peaks; a plot limited to a height range shows that range and, on the second axis, the pressures of the profile at its ends.',
  ['inputs', 'configurations'], 'Any ascending profile, any absorption and opacity arrays of 1-3 frequencies by 2-5 levels, both directions, with and without channel averaging and normalisation.',
  'Tests check shapes and single values.',
  [WF], [('weighting function', 'weighting_functions.py:WeightingFunctions.generate_wf'), ('grid', 'weighting_functions.py:WeightingFunctions.__init__')], ['returned array', 'plotted curves'])
p('C29', 'Channel averages use each channel\'s own consecutive frequencies',
  'For any list of channel sizes, the average of channel k is the arithmetic mean over exactly its own block of consecutive frequencies, in order, with no frequency shared or skipped; plots label it with the mean of those same frequencies and leave the frequencies of the simulation as they were; a grouped plot shows every curve shifted by the offset of the group its frequency belongs to and labels every group once, beside its own curves.',
  ['inputs', 'configurations'], 'All splits of up to 6 frequencies into 1-4 channels, any values.',
  'Tests use one split.',
  [WF], [('channel mean', 'weighting_functions.py:WeightingFunctions._mean_channel')], ['averaged array', 'plotted curves'])
p('C30', 'ITU reference standard atmosphere is piecewise exact and continuous',
  'At any altitude up to 100 km pressure, temperature, vapour density and vapour pressure of the standard atmosphere equal the recommendation\'s formula of the layer the altitude falls in, for scalars and arrays of altitudes in any order; there is no gap in coverage between layers, and temperature and pressure do not jump at layer boundaries by more than the rounding of the published constants.',
  ['inputs'], 'All altitudes 0-100 km.',
  'Tests sample a few altitudes; layer boundaries are measure zero.',
  ['climatology/extrapolation.py'], [('ITU-R P.835 standard atmosphere', 'climatology/extrapolation.py:_ITU835_6.standard_*')], ['pressure, temperature, vapour density'])
p('C31', 'ITU latitude and season models are piecewise exact',
  'For low, mid and high latitudes and both seasons, temperature, pressure and vapour density at any altitude up to 100 km equal the recommendation\'s formula for the layer that altitude falls in.',
  ['inputs', 'configurations'], 'All altitudes 0-100 km, all latitude bands and seasons.',
  'Tests sample a few altitudes of some bands.',
  ['climatology/extrapolation.py'], [('latitude models', 'climatology/extrapolation.py:_ITU835_6.low/mid/high_latitude_*')], ['pressure, temperature, vapour density'])
p('C32', 'Profile extrapolation keeps the observed profile, appends the right climatology',
  'Extrapolating a profile returns the original levels unchanged followed by climatological levels strictly above the profile top (every 3.2 km up to 50 km, then the extrapolator\'s height grid), with values of the latitude band and the season (summer or winter of the hemisphere poleward of 20 degrees, the standard atmosphere otherwise) selected by the given latitude and month, in the same units as the input, without modifying the caller\'s arrays or the extrapolator, so that repeating it gives the same result.',
  ['inputs', 'configurations', 'histories'], 'All latitudes and seasons, profile tops anywhere from below to above the climatology, repeated use of one extrapolator.',
  'Tests extrapolate one sounding.',
  ['climatology/extrapolation.py'], [('splice', 'climatology/extrapolation.py:ProfileExtrapolation.profile_extrapolation')], ['returned profile'])
p('C33', 'Radiosonde archive access selects exactly the requested date(s)',
  'For any chronological archive file (IGRA2), a single date returns exactly the soundings headed with that date and hour and a pair of dates all and only the soundings within that closed range, each level labelled with the date of its own sounding and each header returned once; the file requested is that of the station and archive kind (whole record, current years, derived parameters), and a date without data raises an error.',
  ['inputs', 'configurations'], 'Archives of up to 3 soundings (hour known or not) with any dates, single dates and ranges.',
  'Network tests retrieve one station and date.',
  ['apiwebservices/igra2.py'], [('date selection', 'apiwebservices/igra2.py:IGRAUpperAir')], ['records returned'])
p('C34', 'Radiosonde records decode every fixed-width field to the right physical value',
  'Every data and header line of an archived IGRA2 sounding (ordinary and derived-parameter layout) is decoded field by field from its own columns, whether or not it touches its neighbours, with its scale factor (pressure to hPa, tenths, elapsed and release times to seconds, coordinates to degrees); missing-value codes become missing; levels are dropped only when temperature, dew point depression and wind are all missing; dew point is temperature minus its depression, the wind components follow from speed and direction, and the units reported match the values.',
  ['inputs'], 'All field values that fit the record layout.',
  'Network tests look at one file.',
  ['apiwebservices/igra2.py'], [('fixed-width decoding', 'apiwebservices/igra2.py:IGRAUpperAir')], ['decoded table'])
p('C35', 'Remote data requests are routed by station and date and fail loudly',
  'For any station, date and kind of request (Wyoming sounding, Wyoming station list, IGRA2 archive) the URL asked for encodes exactly that station, date and region, a response with any status other than 200 raises an error naming the failure (address, status and the reason or text given by the server; for the archive the date and the station), and a response saying that no data is available raises rather than returning an empty sounding.',
  ['inputs', 'configurations', 'fault_sequences'], 'All dates, station ids and regions (symbolic), all HTTP statuses.',
  'Needs every HTTP outcome; tests are network bound and skipped offline.',
  ['apiwebservices/webservices.py', 'apiwebservices/wyomingupperair.py', 'apiwebservices/igra2.py'], [('request', 'apiwebservices/webservices.py:HTTPEndPoint')], ['URL requested, error raised'])
p('C36', 'Reanalysis profiles come from the nearest grid point, in simulation units',
  'For any grid and any requested location the profile returned is the one of the grid point nearest in latitude and nearest in longitude, with temperature (K), relative humidity (fraction), pressure (hPa), hypsometric height above the lowest level (km) and cloud, humidity and ozone contents (kg/kg) of that point, ordered from the ground up and labelled with those units; a download request asks for the area within the given margin of the location, the given resolution and the given date and hour.',
  ['inputs'], 'Any grid of 1-3 latitudes by 1-3 longitudes, any location, any fields on 1-3 pressure levels.',
  'One file and location is tested.',
  ['apiwebservices/erafive.py'], [('nearest point and conversion', 'apiwebservices/erafive.py:ERA5Reanalysis')], ['returned profile'])
p('C37', 'Wyoming soundings are parsed column by column',
  'For any Wyoming sounding page each column of the fixed-width sounding table is returned under its own name with its numeric values and units, blanks become missing without shifting other columns, levels without temperature or dew point are dropped, and station name, number, time, latitude, longitude and elevation are those of the page, also for unnamed stations; a station list returns every station of the page with its name.',
  ['inputs'], 'All numeric values in a table of 1-3 levels.',
  'Network bound, skipped offline.',
  ['apiwebservices/wyomingupperair.py'], [('page parsing', 'apiwebservices/wyomingupperair.py:WyomingUpperAir')], ['returned table'])
p('C38', 'Instrument channel tables list the published channels',
  'For every named instrument, the frequency list returned is the published channel list of that instrument, pairing each double-sideband centre with both of its sidebands symmetrically.',
  ['configurations'], 'All instrument names.',
  'Tests check lengths for some instruments.',
  [UT], [('channel tables', 'utils.py:get_frequencies, get_frequencies_sat')], ['frequency list'])
p('C39', 'Climatological profiles are those of the requested atmosphere and gas',
  'For every built-in atmosphere the altitude, pressure, density, temperature and seven major-gas profiles returned are the corresponding columns of that atmosphere\'s own table, each gas found under its gas constant; a minor or trace gas constant selects the column of that gas; the list of atmospheres names each one correctly; and in the shipped tables pressure, density and temperature of each level belong together (ideal gas law); asking again, whatever was done with the arrays returned before, returns the same.',
  ['inputs', 'configurations'], 'Every atmosphere and gas constant, tables with any entries.',
  'Tests use two atmospheres, only through simulation results, and no minor or trace gas.',
  ['climatology/atmospheric_profiles.py'], [('table access', 'climatology/atmospheric_profiles.py:AtmosphericProfiles.gl_atm, gl_atm_minor, gl_atm_trace, atm_profiles')], ['returned profiles'])

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for e in P:
            assert len(e['title']) <= 80, e['title']
            fh.write(json.dumps(e, ensure_ascii=False) + '\n')
    from mk_manifest import write
    write(HERE, P)
