"""writes /verif/properties.jsonl"""
import json, os

M = "SciDataTool/Methods/"
F = "SciDataTool/Functions/"
P = []


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
            },
        }
    )


prop(
    "P01",
    "Selecting part of a field returns exactly the stored samples",
    "Asking a field for chosen positions of its axes (whole axis, one index, a list of indices, a range) returns exactly the stored samples at those positions, together with the axis values of the same positions. Axes that are not asked for are taken at their first sample. The order in which the axes are named in the request does not matter.",
    ["inputs", "configurations"],
    "all field values and axis values; 1 to 3 axes, every selection kind on every axis, every order of the request",
    "The tests compare a few hand-written arrays for a few request strings; they cannot cover all values nor all combinations of selection kinds over several axes.",
    [M + "DataND/get_along.py", M + "DataND/_comp_axes.py", M + "DataND/_extract_slices.py", M + "RequestedAxis/get_axis.py", F + "parser.py", F + "fix_axes_order.py"],
    [("request parsing", F + "parser.py"), ("ordering of the request", F + "fix_axes_order.py"), ("extraction of slices", M + "DataND/_extract_slices.py")],
)
prop(
    "P02",
    "Periodic and antiperiodic storage is rebuilt exactly",
    "A field stored over one period (or antiperiod) of an axis, when asked for on the whole axis, returns the stored samples repeated the declared number of times (with alternating sign for an antiperiod), and the axis continued with its own step. Asking for the smallest period, one period or one antiperiod returns exactly that portion of the same full field. The number of samples reported for an axis agrees with the samples returned. Indices and intervals requested on such an axis count on the whole rebuilt axis. Spectral axes are never continued.",
    ["inputs", "configurations"],
    "all field values, all axis steps; period and antiperiod counts, axis position among up to three axes, both ways of storing an axis",
    "The tests use cosine fields with one or two symmetry counts; a wrong sign or offset that cancels on those shapes is not seen.",
    [M + "DataND/_rebuild_symmetries.py", M + "DataND/_get_field.py", F + "symmetries.py", M + "Data1D/get_values.py", M + "DataLinspace/get_values.py", M + "Data1D/get_length.py", M + "Data1D/get_periodicity.py"],
    [("field rebuild", F + "symmetries.py"), ("axis rebuild", M + "Data1D/get_values.py")],
)
prop(
    "P03",
    "Selecting by physical value picks the right samples",
    "Asking for a field at one value of an axis returns the sample whose axis value is nearest. Asking for an interval that holds at least one sample returns exactly the samples whose axis value lies in it, with their axis values. This holds in any unit or normalization of the axis used to express the request.",
    ["inputs", "configurations"],
    "all axis values, requested values and field values; one or two axes, with and without symmetry",
    "The requested value ranges over a continuum; tests try a handful of values that coincide with samples.",
    [M + "RequestedAxis/get_axis.py", M + "DataND/_interpolate.py", F + "interpolations.py", F + "parser.py"],
    [("interval and value filtering", M + "RequestedAxis/get_axis.py"), ("nearest sample", F + "interpolations.py")],
)
prop(
    "P04",
    "Resampling on requested axis values is linear interpolation",
    "Asking for a field on a list of axis values returns the piecewise linear interpolation of the samples along that axis: exact at the samples, on the straight line between two neighbouring samples elsewhere. The values come in the order of the request. Resampling one axis does not mix samples of the other axes. (A requested axis that agrees with the stored one within 0.1 % is taken as the same axis.)",
    ["inputs", "configurations"],
    "all field values, axis values and requested values inside the axis range; one to three axes, one or two of them resampled",
    "Tests interpolate smooth functions and compare loosely; they do not separate linear interpolation from a slightly wrong neighbour or weight.",
    [F + "interpolations.py", M + "DataND/_interpolate.py", M + "RequestedAxis/get_axis.py"],
    [("interpolation", F + "interpolations.py")],
)
prop(
    "P05",
    "Reductions over an axis equal their definition on the full signal",
    "Sum, mean, rms, root of the sum of squares, integral, maximum and minimum requested along an axis equal the value computed from the definition on the complete rebuilt signal, even when only a period or antiperiod is stored. On time, angle and z, integral, mean, rms and rss follow the trapezoidal rule on the periodic signal closed by one more step. Reducing one axis leaves the others untouched.",
    ["inputs", "configurations"],
    "all field values, axis steps; every reduction, physical and non physical axes, period and antiperiod, one to three axes",
    "The tests check some reductions on cosines, for which many wrong weights give the same number.",
    [M + "DataND/_apply_operations.py", F + "sum_mean.py", F + "derivation_integration.py"],
    [("reductions", F + "sum_mean.py"), ("integral", F + "derivation_integration.py"), ("application order", M + "DataND/_apply_operations.py")],
)
prop(
    "P06",
    "Derivative and antiderivative follow their definition along the axis",
    "The derivative requested along an axis is the second order difference quotient of the periodic signal at every sample, the antiderivative is the running trapezoidal integral with zero mean, the local integral is the trapezoid of each step; in the frequency domain they multiply and divide by 2*pi*j*f. An antiperiodic or periodic reduced signal gives the same samples as the full signal.",
    ["inputs", "configurations"],
    "all field values; uniform time and angle axes, period and antiperiod, one to three axes, spectra",
    "Checked in the tests on sine waves only, up to a loose tolerance.",
    [F + "derivation_integration.py", M + "DataND/_apply_operations.py"],
    [("derivation and integration", F + "derivation_integration.py")],
)
prop(
    "P07",
    "The spectrum of a field is its scaled Fourier transform",
    "Asking a time field for its spectrum returns, at frequency k/(N*dt) or at integer wavenumbers, the discrete Fourier coefficients scaled so that a real harmonic of amplitude A shows as A and the mean shows unscaled (real signals: every line of a time spectrum except zero counts twice; wavenumbers count twice when only non negative ones are asked without frequencies). Symmetries of the stored signal change the frequency scale, never the amplitudes. Spectra along one axis, along two axes and at selected samples of the others are consistent with this definition.",
    ["inputs", "configurations"],
    "all real and complex field values; even and odd numbers of samples, one or two transformed axes, symmetries",
    "The tests look at amplitudes of a few pure tones; a wrong scaling of one line or a wrong sign of phase is visible only for other signals.",
    [F + "fft_functions.py", M + "DataND/get_along.py", M + "RequestedAxis/get_axis.py", M + "DataND/_extract_slices_fft.py"],
    [("transforms", F + "fft_functions.py"), ("selection in the spectrum", M + "DataND/_extract_slices_fft.py")],
)
prop(
    "P08",
    "Going to the frequency domain and back restores the signal",
    "Converting a time field with axes starting at zero (and an even number of time samples per period when real) to the frequency domain and back, or asking a frequency field for its time signal, restores the original samples and axes. This holds for real and complex fields, one or two transformed axes, and stored symmetries.",
    ["inputs", "configurations"],
    "all field values; even sample counts for real signals, one or two axes, symmetries, extra axes",
    "The tests round trip single tones.",
    [F + "fft_functions.py", M + "DataTime/time_to_freq.py", M + "DataFreq/freq_to_time.py", M + "VectorField/time_to_freq.py"],
    [("transforms", F + "fft_functions.py"), ("object conversion", M + "DataTime/time_to_freq.py")],
)
prop(
    "P09",
    "Fourier transforms on non-uniform samples follow the direct sum",
    "When the samples or the requested frequencies are not regularly spaced, the spectrum returned is the direct Fourier sum at each requested frequency, and the time signal is the direct sum of the spectral lines at each requested time. As for regular samples, the sum is divided by the number of samples and, for non negative frequencies, lines other than zero count twice.",
    ["inputs", "configurations"],
    "all field values; non uniform time and frequency axes, one or two axes",
    "Tests use one non-uniform grid and one tone.",
    [F + "nudft_functions.py", F + "fft_functions.py", M + "DataND/get_along.py"],
    [("direct sums", F + "nudft_functions.py")],
)
prop(
    "P10",
    "Unit conversion is exact, reversible and refuses other dimensions",
    "Converting values between two units of the same dimension multiplies them by the ratio of the units, for fields and for axes, so that converting there and back is the identity and chains of conversions agree with the direct one. Units of different dimensions are refused with an error.",
    ["inputs", "programs"],
    "all values; unit expressions built from the supported symbols, prefixes, products, quotients and powers",
    "Unit expressions form an unbounded language; the tests try about a dozen pairs.",
    [F + "conversions.py", M + "DataND/_convert.py", M + "RequestedAxis/get_axis.py"],
    [("unit parsing and conversion", F + "conversions.py")],
)
prop(
    "P11",
    "Decibel, A-weighted and octave band levels follow their definitions",
    "A level in dB is 20 log10 (10 log10 for powers) of the magnitude over the reference, never below the reference floor when a reference other than one is given; a dBA level adds the standard A-weighting of its frequency. Octave band values gather the energy of the lines inside each band.",
    ["inputs", "configurations"],
    "all magnitudes, references and frequencies; power and amplitude units",
    "Tests check two or three levels.",
    [F + "conversions.py", M + "DataND/_convert.py", M + "DataND/get_magnitude_along.py"],
    [("levels", F + "conversions.py")],
)
prop(
    "P12",
    "Normalizations apply the declared rule and nothing else",
    "Asking for an axis or a field in a declared normalization returns the physical values divided by the reference, scaled and offset, replaced by the declared vector, by the indices or by the declared function. Positions selected through a normalized axis are the same as those selected through the physical axis, and the rule covers the whole rebuilt axis.",
    ["inputs", "configurations"],
    "all references, slopes, offsets, vectors and axis values; every normalization kind, with symmetries",
    "Tests use one value per normalization kind.",
    ["SciDataTool/Methods/Norm_ref/normalize.py", "SciDataTool/Methods/Norm_affine/normalize.py", "SciDataTool/Methods/Norm_vector/normalize.py", "SciDataTool/Methods/Norm_indices/normalize.py", M + "Data1D/get_values.py", M + "DataND/_convert.py"],
    [("normalization rules", M + "Norm_ref/normalize.py"), ("axis values", M + "Data1D/get_values.py")],
)
prop(
    "P13",
    "Queries leave the data and the caller's arrays untouched",
    "No request for values, spectra, magnitudes, axes, lengths, converted or derived objects changes the object it is made on or the arrays it was built from. Asking the same thing twice, or after any other request, gives the same answer. (An object holding both time and frequency forms may remember which form was read last.)",
    ["inputs", "histories"],
    "all field values; sequences of up to three requests of different kinds",
    "The tests make one request per object; a request that damages the object for the next one is not seen.",
    [M + "DataND/_get_field.py", M + "Data1D/get_values.py", M + "DataLinspace/get_values.py", F + "conversions.py", M + "VectorField/get_xyz_along.py"],
    [("copies of axes and values", M + "DataND/get_along.py")],
)
prop(
    "P14",
    "Vector fields convert between Cartesian and cylindrical components",
    "The cylindrical components of a Cartesian vector field are its projections on the local radial, tangential and axial directions, and conversely; converting there and back restores the components and the magnitude never changes. Point coordinates convert the same way.",
    ["inputs", "configurations"],
    "all component values and angles; 2 or 3 components, time and angle axes, field and coordinates",
    "Tests check a uniform field on a few angles.",
    [F + "conversions.py", M + "VectorField/get_xyz_along.py", M + "VectorField/get_rphiz_along.py", M + "VectorField/to_xyz.py", M + "VectorField/to_rphiz.py"],
    [("component rotation", F + "conversions.py")],
)
prop(
    "P15",
    "Copies and saved objects are equal to the original and independent",
    "Copying an object, or turning it into its dictionary or saved form and back, gives an object equal to the original in every attribute; changing either afterwards never affects the other. Two objects compare equal exactly when all their values and attributes are equal.",
    ["inputs", "configurations"],
    "all values; every class of the library, nested axes and normalizations, single attribute changes",
    "Tests save one object and compare a few attributes.",
    ["SciDataTool/Classes/DataND.py", "SciDataTool/Classes/Data1D.py", "SciDataTool/Classes/DataLinspace.py", "SciDataTool/Classes/DataPattern.py", "SciDataTool/Classes/VectorField.py", F + "save.py", F + "copy.py", F + "load.py"],
    [("dictionary form", "SciDataTool/Classes/DataND.py"), ("json form", F + "save.py")],
)
prop(
    "P16",
    "Changing the rotating referential shifts frequencies by order",
    "Seen from a frame rotating at a given speed, a spectral line of frequency f and spatial order r appears at f + r*speed/60 with its amplitude unchanged, lines that meet are added, and nothing else appears; the lines of a real field brought to a negative frequency are folded with their conjugate. In the waveform domain angles between samples are interpolated linearly. Going to the rotating frame and back restores the field.",
    ["inputs", "configurations"],
    "all complex amplitudes; small grids of frequencies and orders, positive and negative speeds",
    "Tests rotate one or two waves.",
    [F + "change_referential.py", M + "DataND/change_referential.py", M + "VectorField/change_referential.py"],
    [("spectrum shift", F + "change_referential.py")],
)
prop(
    "P17",
    "Sum and product of spectra match the sum and product of signals",
    "The sum of two spectra carries at every frequency the sum of their lines; their product (convolution) is the spectrum of the product of the two time signals. No line is lost or counted twice.",
    ["inputs", "configurations"],
    "all complex amplitudes; sets of frequencies with common, opposite and zero lines, one and two spectral axes",
    "Tests multiply single tones.",
    [F + "sum_convolution.py", M + "DataFreq/sum.py", M + "DataFreq/conv.py"],
    [("index bookkeeping", F + "sum_convolution.py")],
)
prop(
    "P18",
    "An extracted data object holds what the extraction returns",
    "Extracting a request as a new data object gives an object whose own axes and values, when read back, are those the request returns as arrays, with the unit (of the physical quantity, also when it is read normalized) and symmetries that describe them. Extracting a vector field does so for each component.",
    ["inputs", "configurations"],
    "all field values; requests of every kind over one to three axes",
    "Tests extract one or two requests.",
    [M + "DataND/get_data_along.py", M + "VectorField/get_vectorfield_along.py"],
    [("object construction", M + "DataND/get_data_along.py")],
)
prop(
    "P19",
    "Magnitude, phase and dominant harmonics describe the spectrum",
    "The magnitude of a request is the absolute value of what the request returns and the phase its argument. Asking for the N largest harmonics returns N lines of the spectrum, none smaller than a line left out, with their own frequencies. Reductions in a magnitude request act on the magnitudes.",
    ["inputs", "configurations"],
    "all field values; one and two axes, N from 1 to 3",
    "Ordering depends on all values; tests use one ordering.",
    [M + "DataND/get_magnitude_along.py", M + "DataND/get_phase_along.py", M + "DataND/get_harmonics.py", M + "RequestedAxis/get_axis.py"],
    [("harmonic selection", M + "DataND/get_harmonics.py")],
)
prop(
    "P20",
    "Set operations with tolerance keep one representative of every value",
    "The unique values, union and intersection taken with a tolerance contain, for every input value, a value within the tolerance, contain only input values, and never two values that are equal (values are compared on a grid whose spacing is the tolerance). The indices returned locate the inputs in the result.",
    ["inputs"],
    "all values and tolerances; arrays of up to four values",
    "No test covers them over all values.",
    [F + "set_routines.py"],
    [("tolerance rounding", F + "set_routines.py")],
)
prop(
    "P21",
    "The leakage filter recovers the amplitudes of known frequencies",
    "A spectrum made only of lines at known frequencies, seen through a finite window, is filtered back to exactly the amplitudes of these lines, whatever the amplitudes (time axis without symmetry starting at zero, lines below half the sampling frequency). Other axes are filtered independently.",
    ["inputs", "configurations"],
    "all complex amplitudes; several sets of frequencies and windows",
    "Tests filter one signal.",
    [F + "filter_spectral_leakage.py", M + "DataND/filter_spectral_leakage.py", M + "VectorField/filter_spectral_leakage.py"],
    [("leakage matrix", F + "filter_spectral_leakage.py")],
)
prop(
    "P22",
    "Changing the stored periodicity keeps the full field",
    "Reducing a uniform axis to its smallest period, or storing a vector field with another (compatible) periodicity, keeps the complete axis and field: everything read on the whole axis is the same before and after.",
    ["inputs", "configurations"],
    "all field values; period and antiperiod counts, time and angle axes",
    "Tests use one machine periodicity.",
    [M + "VectorField/change_periodicity.py", M + "Data1D/get_axis_periodic.py", M + "DataLinspace/get_axis_periodic.py"],
    [("re-tiling", M + "VectorField/change_periodicity.py"), ("axis reduction", M + "Data1D/get_axis_periodic.py")],
)
prop(
    "P23",
    "Comparing fields resamples them on one common axis",
    "Comparing several fields along an axis returns them all on the same axis values, contained in the common range of their axes, each being its own linear interpolation there, provided that they have samples in common range.",
    ["inputs", "configurations"],
    "all field values; overlapping axes of different lengths",
    "No passing test compares fields on different axes.",
    [M + "DataND/compare_along.py", M + "DataND/compare_magnitude_along.py", M + "DataND/compare_phase_along.py", F + "interpolations.py"],
    [("common base", F + "interpolations.py")],
)
prop(
    "P24",
    "A dual field answers from the matching domain",
    "An object holding both the time and the frequency form of a field answers time requests from the time form and frequency requests from the frequency form, exactly as the separate objects would.",
    ["inputs", "histories"],
    "all field values of both forms; alternating requests",
    "Tests make one request of each kind.",
    [M + "DataDual/get_along.py", M + "DataDual/get_axes.py", M + "DataTime/to_datadual.py", M + "DataFreq/to_datadual.py"],
    [("domain switch", M + "DataDual/get_along.py")],
)
prop(
    "P25",
    "Exported tables contain the requested values",
    "The file written by an export holds, cell by cell, the axis values and the field values that the same request returns, each at the row, column and file of its axis values, under headings naming the field, its unit, the axes, their units and the positions of the sliced axes.",
    ["inputs", "configurations"],
    "all field values; one to four axes, tables and curves",
    "Tests only check that a file is written.",
    [M + "DataND/export_along.py"],
    [("table layout", M + "DataND/export_along.py"), ("orientation of the curves", M + "DataND/plot_2D_Data.py")],
)
prop(
    "P26",
    "Step (pattern) axes rebuild the repeated slices",
    "A field stored on the distinct slices of an axis is rebuilt on the whole axis by repeating each slice at its declared positions, and reductions over the axis equal those of the rebuilt field (trapezoids are not closed by one more step on such an axis).",
    ["inputs", "configurations"],
    "all field values; rebuild index patterns, axis position",
    "Tests use one pattern.",
    [M + "DataPattern/get_values.py", M + "DataPattern/get_length.py", M + "DataND/_get_field.py", M + "DataND/_rebuild_symmetries.py"],
    [("pattern rebuild", M + "DataND/_rebuild_symmetries.py")],
)
prop(
    "P27",
    "Fields whose values do not fit their axes are refused",
    "Building a field, or assigning values to it, succeeds exactly when the array has one sample per axis position (dimensions of length one are not significant), keeps the values in axis order, and is refused with an error otherwise.",
    ["configurations", "inputs"],
    "shapes of up to three axes with lengths 1 to 3; all values",
    "Tests build consistent fields only.",
    [M + "DataND/_set_values.py", "SciDataTool/Classes/_check.py", "SciDataTool/Classes/DataND.py"],
    [("dimension check", "SciDataTool/Classes/_check.py")],
)
prop(
    "P28",
    "Matching-pursuit reconstruction reproduces sparse signals",
    "Rebuilding a field from an incomplete set of time samples by orthogonal matching pursuit returns the original samples for a signal that is sparse in the chosen dictionary.",
    ["inputs"],
    "all sparse signals; sets of kept samples",
    "One test reconstructs one signal.",
    [F + "omp.py", M + "DataND/orthogonal_mp.py"],
    [("sparse regression", F + "omp.py")],
)
prop(
    "P29",
    "Plots draw the values of the request",
    "The curves, bars, maps, surfaces, stem plots and arrows drawn for a request (as handed to the drawing library) show the axis values and field values that the request returns, each value at the position of its own axis values, under labels naming their units. The first axis listed is the abscissa. Plotting does not change the field.",
    ["inputs", "configurations"],
    "all field values; 2D and 3D plots of one to three axes, overlaid curves and fields, vector fields",
    "Tests only produce figures.",
    [M + "DataND/plot_2D_Data.py", M + "DataND/plot_3D_Data.py", M + "VectorField/plot_2D_Data.py", M + "VectorField/plot_3D_Data.py", F + "Plot/plot_2D.py", F + "Plot/plot_3D.py", F + "Plot/plot_4D.py"],
    [("plot data selection", M + "DataND/plot_2D_Data.py"), ("orientation of maps", M + "DataND/plot_3D_Data.py")],
)
prop(
    "P30",
    "Requests that cannot be answered are refused and change nothing",
    "A request for samples outside an axis, for a period the axis does not have, in an unknown or incompatible unit, with a normalization or axis data that are not there, for a reduction the axis does not support, or from a file that does not hold an object raises an error instead of returning an answer. An interval or threshold is refused exactly when no sample falls inside. The field is afterwards as before and answers as before.",
    ["inputs", "configurations"],
    "all field values and axis values; every kind of request on time, frequency, dual and vector fields",
    "Tests check few refusals and never the state left behind.",
    [F + "parser.py", M + "RequestedAxis/get_axis.py", M + "DataND/_convert.py", F + "conversions.py", F + "derivation_integration.py", M + "Data1D/get_values.py"],
    [("guards of the request", M + "RequestedAxis/get_axis.py"), ("unit guards", F + "conversions.py"), ("loading", F + "load.py")],
)
prop(
    "P31",
    "An axis describes itself consistently with its values",
    "The length of an axis (whole, one period, half period, stored part) is the number of values it returns for the same part. It has a period exactly when its stored part is repeated, and its periodicity is the number of repetitions. Turning an axis into an evenly spaced one, or reducing it to a number of (anti)periods, keeps the whole list of values, unit and normalizations, and leaves the original alone. A filter returns exactly the positions of the components whose items are all asked for.",
    ["inputs", "configurations"],
    "all axis values; explicit, evenly spaced and pattern axes, every symmetry and part; every subset of the filter items",
    "Tests look at a few axes of one kind.",
    [M + "Data1D/get_length.py", M + "Data1D/get_values.py", M + "Data1D/to_linspace.py", M + "Data1D/get_axis_periodic.py", M + "Data1D/get_filter.py", M + "DataLinspace/get_values.py", M + "DataLinspace/get_length.py", M + "DataPattern/get_values.py"],
    [("length of the parts", M + "Data1D/get_length.py"), ("evenly spaced axes", M + "DataLinspace/get_values.py"), ("filters", M + "Data1D/get_filter.py")],
)
prop(
    "P32",
    "Every method answers the same request in the same way",
    "Values, magnitudes, phases, levels, harmonics, extracted objects and the components of vector fields asked with the same axes, axis data, unit and normalization are the same function of the samples that the plain request returns, on the same axes. It makes no difference whether the axes are listed one by one or as a tuple, in which order, or together with names of axes the field does not have. Components a vector field does not have are zero. Options (unit, normalization, resampled axes, kept dimensions) are followed by every method.",
    ["inputs", "configurations"],
    "all field values; real, complex, time, frequency and vector fields of every set of components; every kind of request with every option",
    "Tests call each method on its own with few options and never compare them.",
    [M + "DataND/get_magnitude_along.py", M + "DataND/get_phase_along.py", M + "DataND/get_data_along.py", M + "DataND/get_harmonics.py", M + "DataND/_comp_axes.py", M + "VectorField/get_rphiz_along.py", M + "VectorField/get_xyz_along.py", M + "VectorField/get_mag_rphiz_along.py", M + "VectorField/get_mag_xyz_along.py", M + "VectorField/get_harm_rphiz_along.py", M + "VectorField/get_harm_xyz_along.py", M + "VectorField/get_vectorfield_along.py"],
    [("options passed on", M + "DataND/get_magnitude_along.py"), ("components", M + "VectorField/get_rphiz_along.py")],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
