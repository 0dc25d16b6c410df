#!/usr/bin/env python3
"""Source of properties.jsonl: run `python3 tools/properties_src.py` to rewrite it."""
import json
import os

P = []
M = "starwinds_magnetogram/"


def prop(id_, title, statement, over, text, why, files, mechanism, observe):
    assert len(title) <= 80, (id_, len(title))
    P.append({"id": id_, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [M + f for f in files],
                          "mechanism": [{"name": n, "where": M + w} for n, w in mechanism],
                          "observe_at": observe, "hook_needed": None}})


prop("C01", "Writing a magnetogram file and reading it back loses nothing",
     "Writing a set of coefficients (any number of complex components per element) to a file and reading it back gives, for every "
     "degree and non-negative order up to the written maximum degree, the same complex value in the same component to the seven "
     "significant digits of the format, with elements that were never set reading back as zero. A larger requested maximum degree "
     "only adds zeros, a smaller one drops exactly the higher degrees, and asking for a lower minimum order also keeps the negative orders. "
     "The SWMF header changes nothing in the data that is read back.",
     ["inputs", "configurations"],
     "All coefficient sets (sparse or dense, 1-5 components, values over 60 decades, any insertion order) times maximum degree, minimum order and header choice.",
     "The tests round-trip a handful of stored magnetograms at default settings; they cannot cover sparse sets, extreme exponents, or the option combinations.",
     ["reader_writer.py", "coefficients.py"],
     [("read_magnetogram_file", "reader_writer.py"), ("write_magnetogram_file", "reader_writer.py"), ("as_arrays", "coefficients.py")],
     ["contents of the written file", "coefficients returned by the reader"])

prop("C02", "The reader accepts any ZDI/WSO layout and takes only the data lines",
     "Reading a magnetogram file returns exactly the degree, order and complex value of every data line, whatever non-data lines (headers, "
     "blank lines, comments), indentation, column spacing, number notation, extra trailing columns or line order surround them. Data lines that "
     "repeat a degree and order start the next component, so a file with k complete blocks gives k components in file order. A file that was written anew is read anew.",
     ["inputs"],
     "All text files made of data lines in k blocks in any within-block order, interleaved with arbitrary non-data lines and formatting.",
     "The tests read a few files written by the package or one fixed sample; layouts produced by other tools are unbounded.",
     ["reader_writer.py"],
     [("line tokenisation and block split", "reader_writer.py"), ("hstack", "coefficients.py")],
     ["coefficients returned by the reader"])

prop("C03", "The SWMF header describes the data block that follows it",
     "A magnetogram file written with the SWMF header starts with five header lines followed by the data block: a name line, the "
     "step/time/dimension line 0, 0.0, -2, 3, 2, then the number of data lines in the file with 1, then the maximum degree of the data with "
     "rotation number and longitude shift, then the variable names. The stated number of lines and maximum degree equal what the file actually contains, "
     "and the data block lists every degree from 0 to the maximum with every order from 0 (or the lowest order asked for) to the degree exactly once, in increasing order.",
     ["inputs", "configurations"],
     "All single-component coefficient sets and all requested maximum degrees, through the library and through the command line.",
     "The tests only check that a file is produced or parse it with the package's own reader, which skips the header; no test compares the header with the data.",
     ["reader_writer.py", "bin/convert_magnetogram.py"],
     [("create_swmf_header", "reader_writer.py"), ("write_magnetogram_file", "reader_writer.py")],
     ["text of the written file"])

prop("C04", "The conversion command writes the converted magnetogram and nothing else",
     "The conversion command turns a ZDI file into the file of its radial coefficients rescaled to the PFSS convention, with --pfss-to-zdi a "
     "PFSS file into a three-component ZDI file, and with --no-conversion rewrites the coefficients unaltered; converting to ZDI and back "
     "returns the original PFSS coefficients. A maximum degree option pads with zeros or drops higher degrees, the header appears exactly when asked for and "
     "never in ZDI output, and the input file is left untouched.",
     ["inputs", "configurations", "histories"],
     "All valid input files, all option combinations, and chains of conversions.",
     "The console-script tests run each mode once on stored files and only check that it exits; they do not compare numbers or option combinations.",
     ["bin/convert_magnetogram.py", "converter.py", "reader_writer.py"],
     [("main", "bin/convert_magnetogram.py"), ("convert_zdi_to_pfss / convert_pfss_to_zdi / no_conversion", "bin/convert_magnetogram.py")],
     ["output file contents", "input file contents", "directory listing"])

prop("C05", "Conversion never overwrites its input or an existing default output",
     "The conversion command refuses to run, leaving every file as it was, when the output is the input file under any spelling of its path "
     "(relative, absolute, through a symbolic link) or when no output name is given and the default output file already exists. When no output "
     "name is given the result goes to the current directory under the input's base name with _wso or _zdi before the extension.",
     ["inputs", "configurations", "histories"],
     "All input locations and names, all spellings of the output path, all modes, and sequences of conversions over one directory.",
     "No test covers path spellings, symbolic links or repeated runs.",
     ["bin/convert_magnetogram.py"],
     [("output file name selection", "bin/convert_magnetogram.py")],
     ["directory tree before and after", "exception or success"])

prop("C06", "ZDI to PFSS conversion preserves the radial surface field",
     "For any radial ZDI coefficients of non-negative order, the converted PFSS coefficients give on the stellar surface the same "
     "radial field as the ZDI coefficients, point for point, with azimuth running the opposite way. Conversion acts on each "
     "degree and order separately, is linear, keeps the set of degrees and orders, and does not depend on the source surface radius.",
     ["inputs"],
     "All radial coefficient sets (degrees 0-80) and all surface points including the poles.",
     "Tests compare a few stored magnetograms on one grid; a wrong factor for one parity or degree class can hide.",
     ["converter.py", "pfss_magnetogram.py", "zdi_magnetogram.py"],
     [("forward_conversion_factor / convert_zdi_to_pfss", "converter.py")],
     ["radial field of both representations"])

prop("C07", "PFSS to ZDI conversion reproduces the full surface field vector",
     "For any PFSS coefficients, the converted ZDI magnetogram has on the surface the radial, polar and azimuthal components of the potential "
     "field with its source surface at three stellar radii, with azimuth (and hence the azimuthal component) reversed. It has no toroidal part, and its radial coefficients "
     "convert back to the original PFSS coefficients.",
     ["inputs"],
     "All PFSS coefficient sets (degrees 1-30), all surface points including the poles.",
     "Tests compare scale factors for a few stored magnetograms on one grid.",
     ["converter.py"],
     [("convert_pfss_to_zdi", "converter.py")],
     ["surface field components of both representations"])

prop("C08", "The extrapolated field is a potential field with its boundary conditions",
     "Between the star and the source surface the extrapolated field is curl-free and divergence-free; at the stellar surface its radial component is the sum of "
     "the Schmidt-normalised harmonics of the coefficients whatever the source surface radius, and at the source surface it is purely radial. Outside the source surface it stays radial and falls "
     "with the inverse square of the distance, continuously across the surface; inside the star it is zero.",
     ["inputs", "configurations"],
     "All coefficient sets, stellar and source surface radii, and points in every region (inside, shell, outside, on the boundaries).",
     "Tests check the components against stored grids or a few analytical dipoles; divergence, curl and boundary conditions hold for a continuum of points and radii.",
     ["pfss_magnetogram.py"],
     [("evaluate_spherical", "pfss_magnetogram.py"), ("r_l", "pfss_magnetogram.py")],
     ["field values from the spherical and cartesian evaluation"])

prop("C09", "The extrapolated field has the right value at every point, in any layout",
     "The extrapolated field equals minus the gradient of the sum of radial, Schmidt-normalised polar and cosine/sine azimuthal factors at every point, the polar axis included, "
     "for any stellar and source surface radius (1 and 2.5 by default). The value at a point depends on that point only, not on the shape or order of the point arrays; "
     "it is linear in the coefficients, and the cartesian evaluation is the same vector expressed in cartesian components together with its spherical components.",
     ["inputs", "configurations"],
     "All coefficient sets with orders >= 0 (degrees 0-110), all points (including both poles), all array shapes, all radii.",
     "Tests evaluate a few magnetograms on fixed grids away from the axis.",
     ["pfss_magnetogram.py", "coordinate_transforms.py", "associated_legendre.py"],
     [("evaluate_spherical", "pfss_magnetogram.py"), ("evaluate_cartesian", "pfss_magnetogram.py"), ("calculate_lpmn", "associated_legendre.py")],
     ["field arrays returned by both evaluations"])

prop("C10", "ZDI field components follow the published spherical harmonics expansion",
     "At every surface point, the polar axis included, the radial, polar and azimuthal components of the poloidal and toroidal ZDI field equal the expansion of the "
     "radial, poloidal and toroidal coefficients of positive or negative order, for any set of coefficients and any array layout. Poloidal and toroidal parts add to "
     "the full components, the toroidal part has no radial component, the strength is the norm of the components, and the cartesian full, poloidal and toroidal fields are the same vectors. Coefficients may be given as numbers, lists, tuples or arrays; poloidal or toroidal ones that are not given are zero, and the normalisation factors are the same by every method.",
     ["inputs"],
     "All coefficient sets (degrees 0-30 with negative orders, to 110 with orders >= 0, one to three components) and all points.",
     "Tests plot fields or compare one stored magnetogram's average; the cartesian poloidal/toroidal variants and the poles are never exercised.",
     ["zdi_magnetogram.py", "associated_legendre.py"],
     [("get_*_field", "zdi_magnetogram.py"), ("calculate_lpmn", "associated_legendre.py"), ("get_c_lm", "zdi_magnetogram.py")],
     ["field arrays returned by each component method"])

prop("C11", "Magnetic energies equal the surface integral of the squared field",
     "The radial, poloidal and toroidal energies computed from the coefficients equal the integrals over the unit sphere of the squared radial, remaining poloidal and toroidal "
     "field components, degree by degree and order by order. Every reported total, fraction (radial, poloidal, toroidal, dipole to octopole, per degree up to 15, axisymmetric) is the "
     "corresponding ratio of those energies, and the energy matrices place each energy at its degree and order.",
     ["inputs"],
     "All coefficient sets of non-negative order, including ones with missing degrees or orders and purely poloidal or toroidal fields.",
     "Tests compare a few stored magnetograms with reference printouts.",
     ["zdi_magnetogram.py"],
     [("energy", "zdi_magnetogram.py"), ("energy_matrix", "zdi_magnetogram.py")],
     ["returned energies and the dictionary of named values"])

prop("C12", "Rotating a magnetogram rotates its field rigidly",
     "A rotation (a unit quaternion, or z-y-z Euler angles in degrees) turns the coordinate axes: the field of the rotated coefficients at the point that the inverse rotation takes a point to is the original "
     "field there, turned the same way, for any rotation, any degree, radial field and full vector alike. Rotating by the identity changes nothing, successive rotations compose, a rotation followed by its inverse restores the coefficients, "
     "and the power in each degree is conserved for each component separately.",
     ["inputs", "histories"],
     "All coefficient sets (degrees 0-8, negative orders, several components), all rotations (Euler angles and quaternions), sequences of rotations.",
     "Tests plot rotated magnetograms or compare a few angles on a grid.",
     ["rotate.py"],
     [("rotate_magnetogram", "rotate.py"), ("rotate_magnetogram_euler_zyz_deg", "rotate.py")],
     ["rotated coefficients", "field of rotated coefficients"])

prop("C13", "Folding negative orders onto positive ones leaves the field unchanged",
     "Mapping a single-component set of coefficients to non-negative orders gives a set without negative orders whose radial field is the same at every point. "
     "Sets that already have only non-negative orders keep their values, folding twice equals folding once, and folding commutes with adding and real scaling.",
     ["inputs"],
     "All single-component coefficient sets with any mix of negative and positive orders.",
     "Tests fold one or two rotated magnetograms.",
     ["converter.py"],
     [("map_to_positive_orders", "converter.py")],
     ["folded coefficients and their radial field"])

prop("C14", "Coefficients recovered from a sampled field reproduce that field",
     "Sampling the three components of a ZDI field on a regular grid and recovering coefficients up to at least its degree gives back the radial, poloidal and toroidal coefficients up to "
     "the quadrature error of the grid, which vanishes with refinement; the imaginary part of zero-order coefficients, which carries no field, is not recovered. "
     "Recovery is linear in the field, returns every degree and non-negative order up to the maximum, and uses the given cell area when one is given.",
     ["inputs", "configurations"],
     "All coefficient sets (degrees 1-6), grid sizes, maximum degrees, with and without a given area.",
     "Tests recover one or two fixed magnetograms on one grid with loose tolerance.",
     ["converter.py"],
     [("get_zdi_coeffs", "converter.py"), ("convert_latlon_to_zdi", "converter.py")],
     ["recovered coefficients and their field"])

prop("C15", "Images and complex spherical harmonics convert both ways",
     "Turning coefficients into an image on a grid gives at each facet center the sum of the coefficients times the orthonormal complex spherical harmonics, and turning that image back returns the "
     "coefficients up to the quadrature error of the grid for all degrees below the requested one. Both directions are linear, and the results do not depend on earlier "
     "calls, on other grids used before, or on what callers did with arrays returned earlier.",
     ["inputs", "histories"],
     "All coefficient sets (degrees 0-6, all orders), grid shapes, and interleavings of conversions on different grids.",
     "Tests convert one image on one grid; the memory shared between calls is never probed.",
     ["image_converter.py"],
     [("from_image / to_image", "image_converter.py"), ("cached spherical harmonics", "image_converter.py")],
     ["images and coefficients returned"])

prop("C16", "The coefficient container behaves as a map from degree and order to values",
     "After any sequence of operations a coefficient set holds exactly the values last set for each degree and order, and the default elsewhere; membership, size, iteration in increasing order, highest degree and lowest order "
     "agree with that. Adding an existing element, an order beyond the degree or a wrongly shaped value is refused and changes nothing.",
     ["histories", "inputs"],
     "All sequences of append, set, get and derived-set operations, with valid and invalid arguments.",
     "Tests follow a few fixed sequences.",
     ["coefficients.py"],
     [("Coefficients", "coefficients.py")],
     ["public methods of the container after every step"])

prop("C17", "Sums, products, powers and scaling of coefficient sets act element by element",
     "Sums, differences, products and comparisons of coefficient sets, multiplication and division by a number, powers, and scaling by a function of degree and order give for every degree and order the same operation on the complex values, a missing element counting as zero. "
     "Copies are independent, and an operation never changes its operands or values obtained from them earlier.",
     ["inputs", "histories"],
     "All pairs and triples of coefficient sets with overlapping or disjoint elements, any number of components, real and complex factors.",
     "Tests use a few small sets, mostly with identical elements in both operands.",
     ["coefficients.py"],
     [("add / multiply / scale / power / copy", "coefficients.py"), ("isclose / allclose", "coefficients.py")],
     ["coefficients of results and operands"])

prop("C18", "Splitting, stacking, array export and truncation of sets lose nothing",
     "Stacking sets side by side and splitting the result returns the original components with zeros for missing elements; building a set from arrays of degrees, orders and values and exporting it returns them; "
     "exporting honours the requested degree and order limits and whether unset elements are included, in increasing degree and order, also when they select nothing. Truncating to a degree keeps exactly the elements up to it, and a generated noise set holds every degree and non-negative order of its range, each of the size of the random number divided by 2l+1 and by the requested power of the degree.",
     ["inputs", "configurations"],
     "All coefficient sets, component counts, split points, degree and order limits.",
     "Tests cover single stack/split examples and default limits.",
     ["coefficients.py"],
     [("hstack / hsplit / as_arrays / from_arrays / truncated / noise", "coefficients.py")],
     ["returned arrays and sets"])

prop("C19", "Calculations leave the caller's data unchanged and are repeatable",
     "Evaluating fields, energies, longitudinal curves, wind solutions, conversions, rotations, writing or plotting never modifies the coefficients, arrays or geometry passed in. Repeating a calculation, in any order with others, gives the same result, also after the caller has overwritten returned field arrays or changed returned coefficient sets.",
     ["histories", "inputs"],
     "All sequences of calculations over shared inputs.",
     "Tests use fresh inputs for each call and never compare inputs before and after.",
     ["coefficients.py", "converter.py", "zdi_magnetogram.py", "pfss_magnetogram.py", "parker_solution.py", "longitudinal_field.py", "plots.py"],
     [("copy semantics", "coefficients.py"), ("evaluation functions", "pfss_magnetogram.py"), ("ParkerSolution", "parker_solution.py")],
     ["inputs before and after each call"])

prop("C20", "Facets tile the sphere: areas, centers, normals and visibility",
     "The facets of a surface grid have areas that are positive and sum to the exact area of the covered region (the whole sphere by default); centers lie in the middle of their facet's corners, unit normals point outward through the centers, and cartesian corners and centers are those of the spherical coordinates on the unit sphere. "
     "The visible projected fraction of a facet is the cosine of the angle between its normal and the viewing direction where that is positive and zero otherwise, independent of the length of the direction. Corners that go around more than once (and would cover a part of the sphere twice) are refused.",
     ["inputs", "configurations"],
     "All grids (corner counts or explicit, non-uniform, partial corner arrays) and all viewing directions.",
     "Tests check a few uniform grids.",
     ["geometry.py"],
     [("ZdiGeometry", "geometry.py")],
     ["areas, centers, normals, visible fractions"])

prop("C21", "Spherical and cartesian coordinates and vectors convert both ways",
     "Converting points between cartesian and spherical coordinates and back returns the point, with radius at least zero, polar angle between 0 and pi and azimuth between -pi and pi; the origin is handled. "
     "The matrices that convert vector components are orthonormal, right-handed, inverse to each other and have as columns or rows the local radial, polar and azimuthal unit vectors.",
     ["inputs"],
     "All points over many decades of radius including axes, planes and the origin; all angles.",
     "Tests check a few random points.",
     ["coordinate_transforms.py"],
     [("coordinate and matrix functions", "coordinate_transforms.py")],
     ["returned coordinates and matrices"])

prop("C22", "The longitudinal field is the visible-area average along the line of sight",
     "The longitudinal field seen by an observer is the average of the line-of-sight component of the surface field over the visible facets, weighted by projected area. It is linear in the field, bounded by the largest strength, reverses sign when the magnetogram does, shifts with observer azimuth when the star is rotated about its axis, "
     "is one value per observer azimuth for real or integer azimuths or a single one, and for a dipole seen along its axis converges to the analytical value. The plot shows the curve against the observer azimuth in degrees, and its mean.",
     ["inputs", "configurations"],
     "All magnetograms, grids, observer inclinations and azimuth arrays.",
     "Tests plot curves for a few magnetograms; integer azimuths and invariances are not tested.",
     ["longitudinal_field.py", "geometry.py"],
     [("get_longitudinal_field_curve", "longitudinal_field.py")],
     ["returned curve"])

prop("C23", "The Parker wind is the transonic solution with conserved mass flux",
     "At every radius the wind speed satisfies the dimensionless Parker equation, increases with radius, is subsonic inside and supersonic outside the sonic radius, equals the sound speed there, and is a finite real number; when both solutions are asked for, they are the subsonic and the supersonic solution of that equation. "
     "Density is the base density at the surface and the mass flux through every sphere equals the stated total mass flux; radii below the surface count as the surface.",
     ["inputs", "configurations"],
     "All temperatures, densities, stellar masses and radii with a representable surface speed; all arrays of radii, including the sonic radius itself.",
     "Tests plot a few temperatures on one radius grid which never meets the sonic point.",
     ["parker_solution.py"],
     [("find_parker_analytic", "parker_solution.py"), ("speed / density / total_mass_flux", "parker_solution.py")],
     ["speed, density and mass flux values"])

prop("C24", "The numerical description states the field's true maxima, means and RMS",
     "For every component, its poloidal and toroidal parts and the strength, the numerical description on a whole-sphere grid reports the maximum absolute value over facet centers and the area-weighted mean, root mean square and standard deviation of the absolute value over the sphere. "
     "The squared RMS of the strength is the sum over the three components, and as the grid is refined it agrees with the energy computed from the coefficients.",
     ["inputs", "configurations"],
     "All magnetograms and whole-sphere grids.",
     "The function's own comment says it is untested beyond one magnetogram.",
     ["geometry.py"],
     [("numerical_description", "geometry.py")],
     ["dictionary of named values"])

prop("C25", "Fibonacci points are unit vectors spread evenly over the sphere",
     "A Fibonacci sphere has exactly the requested number of points, all of unit length, distinct, with one point at the middle of each of as many equal-height slices along one axis, also when randomised. Their mean tends to the origin as one over their number, every place on the sphere has a point within the mean spacing or little more, and without randomisation no two points come closer than a quarter of the mean spacing.",
     ["inputs", "configurations"],
     "All numbers of points (1 to thousands), randomised or not.",
     "No test checks the points themselves.",
     ["fibonacci_sphere.py"],
     [("fibonacci_sphere", "fibonacci_sphere.py")],
     ["returned points"])

prop("C26", "Magnetogram plots and the plot command show the actual field and energies",
     "Every field plot, from the library or the plot command, shows at each facet the value of the named component, in color limits that contain the data (symmetric about zero when both signs occur), with the marked maximum and minimum and their legend values at the true extrema, the label of the component that is shown its mean absolute value and the color limits asked for. "
     "Energy plots show the energies by degree, by degree and order, or as fractions of a full circle, slices of the extrapolated field show the requested plane with the outlines of star and source surface, contour lines run where the value is that of their level, and the plot command writes the requested output file for every plot type and magnetogram type.",
     ["inputs", "configurations"],
     "All magnetograms, plot types, magnetogram types and grids.",
     "Tests produce image files without looking at them.",
     ["plots.py", "plot_zdi.py", "plot_pfss.py", "bin/plot_magnetogram.py"],
     [("plot_magnetic_field / add_extrema / plot_components", "plots.py"), ("plot_zdi_field / plot_energy_*", "plot_zdi.py"), ("plot_slice", "plot_pfss.py"), ("main", "bin/plot_magnetogram.py")],
     ["matplotlib artists of the produced figure", "output file"])

prop("C27", "LSD profile plots show the requested columns; intervals partition spectra",
     "LSD plots, from the library or the command, draw for each requested parameter (any selection and order of I, V, N) the profile column against velocity with its own uncertainty, and stacked plots show every profile. "
     "Wavelength intervals cover every sample exactly once, in order, and break exactly where consecutive wavelengths differ by more than the threshold.",
     ["inputs", "configurations"],
     "All profile tables, parameter strings, numbers of profiles, wavelength vectors and thresholds.",
     "The LSD plotting tests are skipped because their data files are missing.",
     ["plot_lsd.py", "bin/plot_lsd.py"],
     [("plot_lsd_profile / plot_lsd_stack / wl_intervals", "plot_lsd.py"), ("main", "bin/plot_lsd.py")],
     ["matplotlib artists", "interval list"])

prop("C28", "Restricted magnetograms partition the full magnetogram",
     "Restricting a magnetogram to ranges of degree and order keeps exactly the coefficients in the (inclusive) ranges with their values, so that restrictions to complementary ranges add up to the full field and energy; the dipole is the restriction to degree one. "
     "The poloidal and toroidal versions keep all degrees and only their own coefficients, add up to the full magnetogram, and, like copies, are independent of the original. Fields, energies and derived magnetograms always follow from the coefficients the magnetogram holds at the time.",
     ["inputs", "histories"],
     "All magnetograms and all ranges, including empty selections and single values.",
     "Tests restrict one magnetogram to the dipole.",
     ["zdi_magnetogram.py"],
     [("as_restricted / as_dipole / as_poloidal / as_toroidal / copy", "zdi_magnetogram.py")],
     ["coefficients, fields and energies of the restricted magnetograms"])

prop("C29", "Color bar tick marks sit at the values their labels state",
     "On a symmetric logarithmic color bar the major ticks are zero and plus and minus the powers of ten of the requested step, each placed where the color scale puts that value and labelled with it; minor ticks are the multiples one to nine of the powers of ten inside the axis range. "
     "Converting a tick label from Tesla to Gauss shifts its exponent by four and leaves labels without an exponent unchanged.",
     ["inputs", "configurations"],
     "All exponent ranges, steps, scale limits and label strings.",
     "No test covers the tick marks.",
     ["colorbar_manual_tickmarks.py"],
     [("generate_major / generate_minor / fully_manual_tickmarks / tesla_to_gauss", "colorbar_manual_tickmarks.py")],
     ["tick positions and labels"])


def main():
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")


if __name__ == "__main__":
    main()
