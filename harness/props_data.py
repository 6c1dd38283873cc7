PBT = 'property-based testing'
prop('M01', 'Metric tensor, inverse, derivatives and 3+1 split agree with the line element',
     'For every built-in analytic space-time, any allowed parameter set and any point outside its horizon, the metric coefficients are those of the published line element, the contravariant coefficients are their exact inverse, and the derivatives and connection coefficients are the derivatives of those same coefficients. The element-wise and matrix forms of each of these quantities give the same numbers, the connection is symmetric in its lower indices, and lapse and shift reproduce the same line element. This includes shifted and summed (complex) metrics.',
     ['inputs', 'configurations'], 'every metric kind x parameter values x coordinate points (both signs of spin/charge, near-horizon, far field, negative radius where the chart has it)',
     'The tests evaluate a few default metrics at a few points; a wrong term that vanishes for the default parameters, on the equator, or for the matrix form only is never met.',
     ['lib/KerrBL.C', 'lib/KerrKS.C', 'lib/Minkowski.C', 'lib/Metric.C', 'lib/Hayward.C', 'lib/ReissnerNordstrom.C', 'lib/RezzollaZhidenko.C', 'lib/KonoplyaRezzollaZhidenko.C', 'lib/ChernSimons.C', 'lib/BalasinGrumiller.C', 'lib/SchwarzschildHarmonic.C', 'lib/Shift.C', 'lib/ComplexMetric.C', 'lib/Utils.C'],
     [('covariant and contravariant coefficients', 'Metric::*::gmunu, gmunu_up'), ('connection', 'Metric::*::christoffel, jacobian'), ('4x4 inversion', 'lib/Utils.C matrix4Invert'), ('3+1 split', 'KerrBL::computeNBeta, gmunu_up_and_jacobian')],
     [['m01', 'plain']], PBT + ': differential against independent closed-form line elements (80-bit) and finite differences',
     'Generated metrics and points; oracle is an independently written line element per metric kind; component-wise tolerances 1e-9 to 1e-8 (finite-difference error bound where the library itself differentiates numerically). Not a proof: covers the sampled parameter space only.',
     ['reference line elements are evaluated in 80-bit floating point; component tolerance 1e-9 relative (1e-8 on Christoffel symbols), finite-difference error bounds where the library itself differentiates numerically',
      'points are generated outside the horizon (2% margin) and away from the polar axis (theta >= 0.03)'])
prop('M02', 'Four-velocities, tetrads and circular orbits obey their defining relations',
     'For every built-in analytic space-time and any point outside its horizon: completing a coordinate velocity yields a unit time-like four-velocity, completing a photon direction yields a null vector, zero-angular-momentum observers are unit, rotate about the axis only and have no angular momentum, and observer tetrads are orthonormal. The circular velocity is a unit four-velocity with the requested direction of rotation, satisfies the geodesic equation on the equatorial plane where the metric provides the exact formula, and follows the Keplerian law when that option is on. Vector projection, normalisation and orthonormalisation do what they say, and the stop condition fires inside the horizon and not in the exterior.',
     ['inputs', 'configurations'], 'every metric kind x parameters x positions x velocities/vectors',
     'Tests check single positions with default parameters; errors off the equator, for retrograde orbits, for a non-zero spin or with the Keplerian option are not sampled.',
     ['lib/Metric.C', 'lib/KerrBL.C', 'lib/KerrKS.C', 'lib/Minkowski.C', 'lib/ReissnerNordstrom.C', 'lib/RezzollaZhidenko.C', 'lib/KonoplyaRezzollaZhidenko.C', 'lib/ChernSimons.C', 'lib/Hayward.C', 'lib/SchwarzschildHarmonic.C'],
     [('velocity completion', 'Metric::Generic::SysPrimeToTdot, normalizeFourVel, nullifyCoord'), ('circular velocity', 'Metric::*::circularVelocity'), ('observers', 'Metric::*::zamoVelocity, observerTetrad'), ('stop condition', 'Metric::*::isStopCondition')],
     [['m02', 'plain']], PBT + ': algebraic invariants evaluated with an independent line element',
     'Generated metrics, positions and vectors; defining equations evaluated with the reference line element of M01. Orthonormality tolerances 1e-9 scaled by the magnitude of the terms.',
     ['exact circular-geodesic check only for metrics whose formula is exact in the equatorial plane', 'Minkowski tetrads are only defined in spherical coordinates'])
prop('G01', 'Worldlines are geodesics at every requested date and after any history',
     'In every built-in analytic space-time, a particle or photon integrated forward or backward with any of the integrators follows the geodesic of its initial condition: the norm of the tangent vector, the energy, the axial angular momentum and (Kerr) the Carter constant stay at their initial values, and times increase along the line. The position, velocity and other time returned for any list of dates, in any order, in coordinate or proper time, in native or Cartesian coordinates, is the point of that geodesic at that date within the integration tolerance. This still holds after any sequence of queries, clones, integrator changes, new initial conditions and changes of the parameters of the space-time.',
     ['inputs', 'histories', 'configurations'], 'metric x parameters x initial conditions x integrator x tolerance x list of dates x operation history',
     'Tests integrate a handful of orbits and look at a few points; date-dependent interpolation, azimuth wrap-around, backward extension, re-use after a parameter change and the 3+1 equations are not covered.',
     ['lib/Worldline.C', 'lib/WorldlineIntegState.C', 'lib/Metric.C', 'lib/KerrBL.C', 'lib/Photon.C', 'lib/Star.C', 'lib/Hooks.C'],
     [('integration', 'Worldline::xFill, IntegState::*::nextStep'), ('interpolation at dates', 'Worldline::getCoord, getCartesian, IntegState::*::doStep'), ('invalidation', 'Hook::Teller/Listener, Worldline::reInit'), ('equations of motion', 'Metric::Generic::diff, KerrBL::diff, diff31')],
     [['g01', 'plain']], PBT + ': model-based (independent Dormand-Prince reference orbit), conservation invariants, random operation histories',
     'Reference orbit integrated with an independent adaptive integrator at 1e-11; tolerances scale with the requested integrator tolerance, the step limit and the measured sensitivity of the orbit. The deprecated Legacy integrator is held to 2e-3.',
     ['orbits are kept outside 1.5 horizon radii and away from the polar axis (decided by the reference orbit)', 'Legacy integrator: documented not to compute proper time; ChernSimons+Legacy uses a slow-rotation approximation and is excluded', '3+1 equations: KerrBL only'])
prop('R01', 'A pixel depends on the scenery and the pixel only',
     'For every scenery, the values computed for a pixel (intensity, emission date, distances, redshift, impact coordinates, spectrum, ...) are the same whether it is traced alone or within any selection of pixels (ranges, lists in any order, masked or not), with any number of threads, on the scenery or on a clone, and whichever other quantities are requested. They are the same again after any history of other traces and of settings that were changed and put back. For optically thick objects the image recomputed from stored impact coordinates is the same, pixels outside the selection are left untouched and masked pixels read as empty.',
     ['inputs', 'schedules', 'histories', 'configurations'], 'sceneries (24 kinds of objects x 8 metrics) x selections of pixels x thread counts x requested quantities x histories of changes',
     'The tests trace whole small images of a few sceneries once; leftover state between rays, cloning omissions, wrong offsets for partial selections, thread races and quantity-dependent code paths only show in specific combinations.',
     ['lib/Scenery.C', 'lib/Screen.C', 'lib/Photon.C', 'lib/Astrobj.C', 'lib/AstrobjProperties.C', 'lib/StandardAstrobj.C', 'lib/ThinDisk.C', 'lib/ComplexAstrobj.C', 'lib/Star.C', 'lib/PageThorneDisk.C', 'lib/PatternDisk.C'],
     [('ray-tracing loop and threads', 'Scenery::rayTrace, SceneryThreadWorker'), ('single ray', 'Scenery::operator(), Photon::hit'), ('pixel selections', 'Screen::Range, Indices, Grid, Bucket'), ('output arrays', 'Astrobj::Properties')],
     [['r01', 'plain']], PBT + ': metamorphic / differential (same pixel traced in different selections, thread counts, clones, histories)',
     'Every generated scenery is traced pixel by pixel as reference and compared with the variant to 1e-9 (1e-4 for objects moving along an integrated orbit, except pixels unstable against a 1e-3 M shift of the observing date).',
     ['objects built from simulation dumps (Sim*, DynamicalDisk*) are not generated', 'bin-integrated spectra of synchrotron objects are not requested (slow quadrature)', 'the quadrature state of ThinDiskProfile/StochasticThinDisk, which require a spectrometer of one channel, is only compared with all quantities requested', 'the number of equatorial-plane crossings is compared in spherical coordinates only'])
prop('S01', 'Every screen direction and pixel is mapped to the right light ray',
     'For any camera (distance, inclination, position angle of the line of nodes, argument, date, offsets, field of view, resolution, each of the three projections) and any metric, the ray of a direction or pixel arrives at the observer position, is null, future-directed and comes from exactly that direction on the sky; a camera moved closer because it is beyond the maximum distance keeps date and direction rescaled accordingly. For observers given by a tetrad (zero angular momentum, circular, given velocity, fully specified) the ray has that direction in the tetrad, and sky coordinates and space coordinates convert into each other consistently. The polarisation basis attached to a ray is orthonormal and orthogonal to it, North carried to the ray direction; masks select exactly their pixels and pixel sets enumerate exactly their pixels.',
     ['inputs', 'configurations'], 'metrics x camera settings x projections x observer kinds x directions and pixels',
     'The tests look at whole images of a few cameras, most of them near the default orientation; a sign or rotation error in one projection, an offset ignored in one branch or a moved camera is not sampled.',
     ['lib/Screen.C', 'lib/Metric.C', 'include/GyotoScreen.h'],
     [('rays', 'Screen::getRayTriad'), ('observer', 'Screen::getObserverPos, setObserverPos'), ('sky coordinates', 'Screen::coordToSky, skyToCoord, coordToXYZ, computeBaseVectors'), ('pixel sets', 'Screen::Grid, Range, Indices, Bucket, Angles'), ('mask', 'Screen::mask, operator()')],
     [['s01', 'plain']], PBT + ': model-based (independent rotations in 80-bit arithmetic), differential between observer kinds',
     'The oracle builds the direction from the documented Euler angles and projections with explicit rotations in 80-bit arithmetic; directions agree to 3e-14. Observers given by a tetrad use the tetrad checked by M02.',
     ['observers keep 0.02 rad away from the polar axis', 'rays of circular observers only where the metric has a circular velocity'])
prop('X01', 'Writing any object to XML and reading it back gives the same object',
     'For every kind of metric, astronomical object, spectrum, spectrometer, and for screens, photons and whole sceneries, with any accepted values of their settings, the XML document written by the library is read back without error into an object of the same kind whose settings all have the same values. Writing that object again gives the same document.',
     ['inputs', 'configurations'], 'every kind of object x any subset of its settings x any accepted values x nested objects',
     'The tests read fixed example documents and rarely write; a setting that is not written, written in another unit, written in an order that makes a later one override it, or refused on reading only shows for specific combinations.',
     ['lib/Factory.C', 'lib/FactoryMessenger.C', 'lib/Object.C', 'lib/Value.C', 'lib/Screen.C', 'lib/Scenery.C', 'lib/Photon.C', 'lib/Astrobj.C', 'lib/Metric.C', 'lib/Spectrum.C', 'lib/Spectrometer.C'],
     [('writing', 'FactoryMessenger::setParameter, Object::fillElement, fillProperty'), ('reading', 'Factory::*, Object::setParameters, setParameter'), ('per-class overrides', '*::fillProperty, *::setParameter')],
     [['x01', 'plain']], PBT + ': round trip (write, read, compare every setting, write again) over objects generated by introspection',
     'Objects are generated from the property lists the library itself publishes; every readable setting is compared to 1e-12.',
     ['objects that need external simulation data to exist (Sim*, XillverReflection) are not generated', 'values that the setter refuses are not part of the object'])
prop('X02', 'Settings read back as set, identically by value, by text and through a parent',
     'For every kind of object, any setting given an accepted value reads back with that value and leaves all other settings as they were (apart from the documented couplings). Giving the same value as text, as in a document, has the same effect as giving it by value, the two names of a flag are opposites of each other, and settings of inner objects can be set through the path of their parent. Unknown names are refused.',
     ['inputs', 'histories', 'configurations'], 'every kind of object x prior settings x setting x value, by value or by text',
     'The tests set a few parameters of a few classes; a setter that writes the wrong member, clobbers a neighbour or parses its text differently for one class is not covered.',
     ['lib/Object.C', 'lib/Value.C', 'lib/Property.C', 'include/GyotoProperty.h', 'include/GyotoObject.h'],
     [('set/get by property', 'Object::set, get'), ('text', 'Object::setParameter'), ('accessors', 'all classes: GYOTO_PROPERTY_* lists and their setters')],
     [['x02', 'plain']], PBT + ': model-based (settings as independent variables), differential between typed and textual routes',
     'Generated objects by introspection; one random change at a time on an object with random prior settings, all settings compared before and after.',
     ['documented couplings are exempted: size of an object -> its safety value, Opacity -> OpticallyThin, Lambda <-> AngMomRinner, ADAFParameters -> ADAF, SubMetric -> Mass, ordering of TMin/TMax, padding of Model_param'])
prop('C01', 'Clones are equal to and independent of their original in any history',
     'For every kind of object, including whole sceneries, a clone has the same settings as the object it was made from, whatever was set before. Changing or destroying either of them, or any object inside one of them, leaves the other unchanged, in any order of clonings, changes and destructions, and never touches freed or foreign memory.',
     ['histories', 'configurations'], 'every kind of object x histories of clone / change (also of inner objects) / destroy',
     'Multi-threaded ray-tracing relies on cloning, but the tests never compare a clone with its original nor modify both; a member forgotten or shared in a copy constructor only shows for the one class and setting.',
     ['lib/*.C (copy constructors)', 'include/GyotoSmartPointer.h', 'lib/SmartPointer.C', 'lib/Hooks.C'],
     [('copying', 'copy constructors and clone() of all classes'), ('ownership', 'SmartPointer, SmartPointee'), ('notifications', 'Hook::Teller, Hook::Listener')],
     [['c01', 'asan']], PBT + ': stateful (random histories of clone/change/destroy) under AddressSanitizer, settings and XML documents as the model',
     'State of an object is its list of settings and its XML document. Memory errors are detected by AddressSanitizer in the same histories.',
     ['NProcesses is by design not copied', 'integrated positions of worldlines are the subject of G01'])
prop('U01', 'Units convert exactly and mean the same everywhere',
     'Converting a length, time, mass, frequency or energy to or from SI or geometrical units gives the physically right number for any supported unit and any mass of the metric, the two directions are inverse of each other, and incompatible units are refused. A setting given with a unit, by value, as text or in a document with its elements in any order, has the value that unit stands for, reads back as given in that unit and correctly in any other, while settings without unit support refuse a unit. Images requested in a unit (per steradian, per pixel, ...) are the SI image times the conversion factor, also after a refused request.',
     ['inputs', 'histories', 'configurations'], 'units x values x masses x settings of every object x images of 24 kinds of objects',
     'The tests use a few units on a few settings; a wrong factor for one dimension, an inverse that is not one, or one setter that forgets its unit is not met.',
     ['lib/Converters.C', 'lib/Screen.C', 'lib/Scenery.C', 'lib/Metric.C', 'lib/UniformSpectrometer.C', 'lib/Object.C', 'lib/Astrobj.C', 'lib/PowerLawSpectrum.C'],
     [('conversion functions', 'Gyoto::Units::To*/From*, Unit, Converter'), ('unit-aware setters and getters', 'GYOTO_PROPERTY_*_UNIT accessors of all classes'), ('image units', 'Scenery::requestedQuantitiesString, intensityConverter, ..., Screen::mapPixUnit, processHitQuantities')],
     [['u01', 'plain']], PBT + ': model-based (independent table of units and physical constants), round trips, metamorphic (image in a unit against SI)',
     'Exact units to 1e-11; astronomical units to 1e-5 (solar radius and mass 2e-3) of their published values; energies to a few 1e-6 (CODATA of the library).',
     ['units of individual Stokes parameters are those of the spectrum', 'G is the value documented by the library (6.67428e-11)'])
prop('W01', 'Emission spectra follow their published laws',
     'Power laws (with cut-offs) and colour-corrected black bodies have the intensity of their law at any frequency, an optically thin increment of source function times one minus the exponential of minus the optical depth, and a band integral right to a few percent whichever order the limits are given in. Thermal bremsstrahlung and thermal, power-law and kappa synchrotron plasmas have the emission, absorption and Faraday coefficients of the published fits, obey Kirchhoff\'s law where thermal, and give the same coefficients one by one, as arrays of frequencies in SI, polarised or not, and averaged over angles. Their intensity increments follow from these coefficients, and setters can be used in any order.',
     ['inputs', 'configurations'], 'kind of spectrum x parameters x frequencies x directions x order of setters',
     'The tests trace a few images with default plasmas and compare nothing with the laws; a wrong exponent or coefficient in one Stokes parameter or in one branch passes.',
     ['lib/Spectrum.C', 'lib/PowerLawSpectrum.C', 'lib/BlackBodySpectrum.C', 'lib/ThermalBremsstrahlungSpectrum.C', 'lib/ThermalSynchrotronSpectrum.C', 'lib/PowerLawSynchrotronSpectrum.C', 'lib/KappaDistributionSynchrotronSpectrum.C', 'lib/Utils.C'],
     [('laws', 'Spectrum::*::operator()'), ('coefficients', 'Spectrum::*::jnuCGS, alphanuCGS, rQnuCGS, ... and radiativeQ'), ('integration', 'Spectrum::Generic::integrate'), ('Bessel functions', 'Gyoto::bessk0, bessk1, bessk, bessi0, bessi1')],
     [['w01', 'plain']], PBT + ': differential against independent implementations of the published formulae in 80-bit arithmetic',
     'Emission coefficients to 1e-8, absorption to 1e-7, Faraday coefficients to 3e-6 of the largest term (Bessel approximations), angle averages to 1% (6% for the 10-step average of power-law electrons), band integrals to 5%.',
     ['sign convention of Stokes Q is that of the library', 'Faraday coefficients of kappa plasmas exist for kappa = 3.5, 4, 4.5 and 5 only', 'circular polarisation is not compared within 1.2 degrees of 90 degrees from the field'])
prop('W02', 'Spectrometer channels match their definition in any history',
     'For a uniform spectrometer of any kind (linear or logarithmic, in frequency or wavelength), given by any sequence of settings and units, the channel boundaries divide the band uniformly in that variable, midpoints and widths are those of the boundaries in frequency, and the boundary indices designate the boundaries of each channel; values requested in another unit are the converted ones. A composite spectrometer always is the concatenation of its current elements, also after elements were changed, added, removed, cloned, written to XML and read back, or destroyed, without ever touching freed memory.',
     ['inputs', 'histories'], 'histories of settings, units, append / remove / clone / destroy / write-read on several spectrometers',
     'The tests build one spectrometer per kind and never change it afterwards.',
     ['lib/Spectrometer.C', 'lib/UniformSpectrometer.C', 'lib/ComplexSpectrometer.C', 'lib/Hooks.C'],
     [('uniform channels', 'Spectrometer::Uniform::reset_, band, kind, nSamples'), ('composite', 'Spectrometer::Complex::append, remove, tell'), ('hooks', 'Hook::Teller, Hook::Listener')],
     [['w02', 'asan']], PBT + ': stateful, model-based (independent model of every live spectrometer checked after each operation), AddressSanitizer',
     'Every live spectrometer is compared with its model after every operation to 1e-11.',
     ['an element belongs to at most one composite spectrometer at a time'])
prop('R02', 'Emission and absorption along the ray add up to the right pixel',
     'Each time a ray meets matter, the emission is added with the redshift factors of the documented law, attenuated by everything already crossed in front of it, for the monochromatic intensity, the spectrum and the binned spectrum alike, whichever of them are requested together. In polarised mode the Stokes parameters are transported by ordered transmission matrices which are the exact solution of the polarised transfer equation over the step, also with no absorption or no polarisation. Each step of a ray through matter is counted over exactly the part of it inside the object, images of uniform spheres, alone or put together in a composite object, equal the analytic solution, and for opaque objects the recorded impact coordinates lie on the ray and on the object while redshift, date, intensity and spectrum follow from them.',
     ['inputs', 'histories', 'configurations'], 'sequences of hits with arbitrary emission laws x requested quantities x polarised or not x absorption and rotation coefficients; whole sceneries of 20 kinds of objects',
     'The tests compare a few images with stored numbers or only run them; an attenuation missing for one combination of quantities, a wrong power of the redshift in one branch or a matrix wrong in one regime is not met.',
     ['lib/Astrobj.C', 'lib/Photon.C', 'lib/StandardAstrobj.C', 'lib/ThinDisk.C', 'lib/UniformSphere.C', 'lib/PageThorneDisk.C', 'lib/Worldline.C', 'lib/ComplexAstrobj.C'],
     [('composite objects', 'Astrobj::Complex::Impact, Photon::Refined'), ('hit processing', 'Astrobj::Generic::processHitQuantities'), ('transmission', 'Photon::transmit, transfer, getTransmission, getTransmissionMax'), ('matrices', 'Astrobj::Generic::Omatrix, Pmatrix, rotateJs'), ('default coefficients', 'Astrobj::Generic::radiativeQ, emission, integrateEmission, transmission'), ('impact', 'Astrobj::Standard::Impact, Astrobj::ThinDisk::Impact')],
     [['r02', 'plain']], PBT + ': model-based (independent layered transfer, matrix exponentials in 80-bit arithmetic), analytic solutions, metamorphic relations on whole sceneries',
     'Synthetic objects with known emission and absorption are put in front of the real hit processing; layered sums agree to 1e-9. Uniform spheres are compared with the formal solution through the chord.',
     ['a Torus with a requested spectrum ignores its settings (known finding)', 'emitted frequencies are those of the redshift checked separately by R01'])
prop('P01', 'Polarisation is parallel transported and measured in the emitter frame',
     'Along any ray, with any integrator and also across the polar axis, the two vectors of the polarisation basis stay orthonormal, orthogonal to the ray, and obey parallel transport. The magnetic geometries (vertical, radial, toroidal, poloidal, parabolic, and their reversed versions) give a unit vector in the rest frame of the matter along the named direction. The angle between ray and field and the polarisation angle are those measured in the emitter\'s frame, do not depend on the gauge of the basis, and the position angle on the sky rotates with the camera.',
     ['inputs', 'configurations'], 'rays x metrics x integrators x emitters x field geometries x cameras',
     'The tests trace a few polarised images without an independent expectation; a wrong sign in one field geometry, a basis lost at the axis or an angle wrong in one quadrant passes.',
     ['lib/Astrobj.C', 'lib/Worldline.C', 'lib/WorldlineIntegState.C', 'lib/Photon.C', 'lib/Metric.C', 'lib/Screen.C'],
     [('transport', 'Metric::Generic::diff (16 components), Worldline::checkBasis, WorldlineIntegState'), ('field geometries', 'Astrobj::Generic::computeB4vect, computeB4vect_ipole'), ('angles', 'Astrobj::Generic::getChi, get_theta_mag'), ('initial basis', 'Screen::getRayTriad, Photon::setInitialCondition')],
     [['p01', 'plain']], PBT + ': model-based (independent integration of parallel transport and projections), conserved quantities, metamorphic (gauge, camera rotation)',
     'Basis vectors are compared with an independent integration of the transport equation and with the conserved Walker-Penrose constant; fields and angles with explicit projections in 80-bit arithmetic.',
     ['Kerr-like metrics in spherical coordinates and flat space; polarised emission of objects is compared in A02'])
prop('A01', 'Matter moves and has its shape as documented, at any date',
     'Every matter model (fixed, free and orbiting stars, blobs, thin and thick disks, plain, deformed and oscillating tori, Polish doughnuts, jets, spherical accretion) moves with a unit four-velocity following its documented law, and a point is inside it exactly when it lies in the documented shape, at any date and in the metrics it supports. A ray hits an object where it first enters that shape. Both depend only on the current settings: an object changed step by step, cloned or built directly behaves the same.',
     ['inputs', 'histories', 'configurations'], 'kinds of objects x metrics x settings in any order x positions x dates; rays through the volume',
     'The tests render a few images per object with default settings; a wrong boundary, direction of rotation or a cached value that survives a change is not met.',
     ['lib/Star.C', 'lib/FixedStar.C', 'lib/FreeStar.C', 'lib/UniformSphere.C', 'lib/Torus.C', 'lib/ThinDisk.C', 'lib/ThickDisk.C', 'lib/Jet.C', 'lib/Blob.C', 'lib/PolishDoughnut.C', 'lib/SphericalAccretion.C', 'lib/DeformedTorus.C', 'lib/OscilTorus.C', 'lib/StandardAstrobj.C'],
     [('shape', 'Astrobj::*::operator()'), ('velocity', 'Astrobj::*::getVelocity'), ('motion', 'Astrobj::*::getCartesian'), ('first hit', 'Astrobj::Standard::Impact, giveDelta, ThinDisk::Impact')],
     [['a01', 'plain']], PBT + ': model-based (independent shapes and velocities), differential (dense sampling of the ray against the hit found), stateful for settings',
     'Shapes and velocities are recomputed from the documentation in 80-bit arithmetic with the reference metrics of M01; rays are sampled densely to locate the first entry.',
     ['models that need external simulation data are excluded', 'spheres and tori apply the velocity of their centre everywhere (by design)'])
prop('A02', 'Matter emits and absorbs as its density, temperature and field laws say',
     'At any place and date the emission and absorption of the plasma models (jet, thick disk, spherical accretion, blob, Polish doughnut, advection-dominated flow), polarised or not, are those of their documented density, temperature and magnetic field laws put into their spectrum. The Page-Thorne disk radiates as a black body the flux required by conservation of energy and angular momentum; power-law black-body disks, iron-line disks, hot spots, inflating stars and oscillating tori follow their documented profile. The result does not depend on what was evaluated before, and a path cut into pieces gives the same as the whole.',
     ['inputs', 'histories', 'configurations'], 'kinds of plasma and disk models x metrics x settings x places x dates x photons x frequencies',
     'The tests render default settings and compare nothing with the laws; a wrong exponent, a unit slip or state left over from a previous evaluation passes.',
     ['lib/Jet.C', 'lib/ThickDisk.C', 'lib/SphericalAccretion.C', 'lib/Blob.C', 'lib/PolishDoughnut.C', 'lib/PageThorneDisk.C', 'lib/ThinDiskPL.C', 'lib/ThinDiskIronLine.C', 'lib/EquatorialHotSpot.C', 'lib/OscilTorus.C', 'lib/InflateStar.C'],
     [('plasma', 'Astrobj::{Jet,ThickDisk,SphericalAccretion,Blob,PolishDoughnut}::radiativeQ'), ('disks', 'PageThorneDisk::emission, bolometricEmission, ThinDiskPL, ThinDiskIronLine, EquatorialHotSpot::emission'), ('dates', 'OscilTorus::emission, InflateStar::emission, Blob')],
     [['a02', 'plain']], PBT + ': differential against independent density / temperature / field laws put in fresh spectra, independent integration of the disk flux, metamorphic (halved steps, repeated evaluation)',
     'Coefficients agree to 2e-5 (rounding of physical constants, 2e-3 for the doughnut), flux of the Page-Thorne disk to 2e-6 (3e-4 in physical units).',
     ['kappa distributions in objects need a library absent here', 'only prograde (non-negative spin) Page-Thorne disks'])
prop('D01', 'Tabulated data are given back as stored and interpolated as documented',
     'A disk defined by tables (pattern and black-body-like pattern disks, series of dated tables, directional disks, shape and velocity of flared synchrotron disks, velocity in three-dimensional disks, and N-dimensional interpolation itself) gives the stored value on each grid point, the multilinear interpolation in radius, azimuth, date, direction and frequency (or the value of the cell, where that is documented) in between, and its documented behaviour outside the grid (zero, clamped, repeated or extrapolated). This holds for any shape of the tables, any limits in azimuth and any number of repetitions, whatever the order of the settings. Tables written to FITS and read back, in a fresh or an already used object, and copies of the object give the same, without ever reading outside the tables.',
     ['inputs', 'histories', 'configurations'], 'shapes and contents of tables x limits x repetitions x order of settings x file round trips x copies x places, dates, directions, frequencies (nodes, edges, in between, outside)',
     'The tests load one file for one of these disks and look at no interpolated value; an index off by one at the edge of a table, a swapped pair of weights or a limit ignored after a reload is not met.',
     ['lib/PatternDisk.C', 'lib/PatternDiskBB.C', 'lib/DynamicalDisk.C', 'lib/DirectionalDisk.C', 'lib/Disk3D.C', 'lib/GridData2D.C', 'lib/FlaredDiskSynchrotron.C', 'lib/FitsRW.C', 'lib/Astrobj.C'],
     [('pattern disks', 'Astrobj::PatternDisk::{emission,getVelocity,getIndices,copy*,fitsRead,fitsWrite}, PatternDiskBB, DynamicalDisk'), ('directional disk', 'Astrobj::DirectionalDisk::{emission,getIndices}'), ('3D disk', 'Astrobj::Disk3D::{getIndices,getVelocity,fitsRead,fitsWrite}'), ('grids', 'GridData2D::{interpolate,getIndices}, FlaredDiskSynchrotron::radiativeQ'), ('N-dimensional interpolation', 'Gyoto::Astrobj::Generic::interpolate / Gyoto N-dim interpolation')],
     [['d01', 'asan']], PBT + ': model-based (the tables kept by the test, direct multilinear formula), FITS round trips in a scratch directory, AddressSanitizer',
     'Values agree to 1e-9 (file round trips to 1e-12, limits held by FITS keywords to 15 digits); places are drawn on nodes, edges, in between and outside.',
     ['the velocity table of a pattern disk is laid out as in the code (radial block, then azimuthal block)', 'one frequency per pattern disk (more are not implemented)', 'the last interval of a series of dated tables is not tested', 'directional disks in the Kerr metric in Boyer-Lindquist coordinates only'])
prop('L01', 'The gyoto command line computes and writes what the library computes',
     'For any scenery file and any combination and order of the options selecting a region of the image, the camera (resolution, field of view, distance, inclination, position angles, date), the parameters with their units, the number of threads and the earliest date, the FITS file written by the gyoto program holds exactly the requested quantities, in their documented order, with the values the library computes for the selected pixels and zero elsewhere; a document written back describes the settings at that point of the command line. Impact coordinates saved in one run and read in another one give the same image, shifted in time if the date was changed. An existing file is not overwritten unless asked, an invalid command line, document, parameter or unit ends with an error status and writes no image, and the built-in help lists every class and setting.',
     ['inputs', 'configurations', 'histories'], 'sceneries x command-line options in random number and order x saved and reloaded impact coordinates x invalid uses',
     'The tests run the program on the example files and look at its exit status; an option that is ignored, applied in the wrong unit or to the wrong axis, a plane written under another name or stale memory outside the region is not seen.',
     ['bin/gyoto.C', 'lib/Scenery.C', 'lib/Screen.C', 'lib/Factory.C', 'lib/Object.C'],
     [('options', 'bin/gyoto.C main'), ('image cube', 'bin/gyoto.C, Scenery::requestedQuantitiesString, getScalarQuantitiesCount'), ('pixels', 'Screen::Grid, Screen::Range, Scenery::rayTrace'), ('impact coordinates', 'Scenery::operator() with impactcoords')],
     [['l01', 'plain']], PBT + ': differential (the program built from the tree against the library called pixel by pixel), metamorphic (two runs linked by impact coordinates), fault injection (invalid uses)',
     'The program is run on generated files in a scratch directory; the cube is compared pixel by pixel to 1e-9 with the library, images loaded from impact coordinates to 1e-6.',
     ['positive steps and non-empty regions only', 'MPI is not covered', 'dates and distances on the command line are in SI, as in the code (the man page says geometrical)'], cli=True)
