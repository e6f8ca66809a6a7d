#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as code only so that it stays readable)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        }})


NOTEST = """The three offline tests only check that setting all-zero data/weights on one grid shape
leaves zeros; no test """
HOOK = "datamanager::verif_hooks::{timestep, global_stats} (feature up4_verif) to build datasets from plain values"

prop("C01", "Cartesian grids assign every inside position to exactly its geometric cell",
     """A Cartesian grid divides its limits into equally sized cells: for every position within
     the (inclusive) limits the cell lookup returns the one cell whose half-open box contains it
     (positions on an upper limit belong to the last cell), and each reported cell position is the
     centre of that cell. Positions outside the limits or with an undefined coordinate are in no
     cell: the inside test is false, the lookup is an error, reading gives NaN and writing changes
     nothing.""",
     ["inputs", "configurations"], "all limits lo<hi, cell counts >=1 and positions, including cell faces, corners, limits, outside and NaN",
     NOTEST + "looks a position up at all.",
     ["src/grid/cartesian_grid.rs"],
     [("cell_id / is_inside / new", "src/grid/cartesian_grid.rs"), ("get_value, add_value, insert", "src/grid/cartesian_grid.rs")],
     [("limits, cells", "extent and number of cells per axis", "CartesianGrid3D")],
     ["cell_id", "is_inside", "get_value", "get_xpositions/get_ypositions/get_zpositions"])

prop("C02", "Cylindrical grids partition the cylinder into equal-volume cells",
     """A cylindrical grid covers the cylinder around the centre of the given x/y limits with
     radius equal to the larger half extent; it is divided into rings of equal area, equal angular
     sectors counted from -pi and equal height layers, and every position in the cylinder is
     looked up in exactly the cell that contains it, whatever the centre of the cylinder is.
     Reported coordinates are the mid radius, the upper angle and the upper height of each cell;
     positions outside the cylinder are in no cell (not inside, lookup is an error, reads give
     NaN, writes change nothing).""",
     ["inputs", "configurations"], "all limits (centred or not, square or not), ring/sector/layer counts >=1 and positions",
     NOTEST + "constructs a cylindrical grid.",
     ["src/grid/cylindrical_grid.rs"],
     [("new (equal-volume rings)", "src/grid/cylindrical_grid.rs"), ("to_cylindrical, cell_id, is_inside", "src/grid/cylindrical_grid.rs")],
     [("rpositions", "inner/outer radius of every ring", "CylindricalGrid3D"), ("limits", "[0,R],[-pi,pi],[zlo,zhi]", "CylindricalGrid3D")],
     ["cell_id", "is_inside", "to_cylindrical", "rpositions", "get_*positions", "get_limits"])

prop("C03", "Grid values and weights are exact accumulators over any history of operations",
     """After any sequence of operations a grid holds, per cell, exactly the value and weight the
     operations define: adding (by position or by cell) adds the value and one to the weight,
     inserting or setting replaces, dividing by a scalar, an array or the weights divides values only, a
     trajectory value is split in equal halves between the cells of its two end points (Cartesian; nothing if one
     is outside) or goes to the cell of the first (cylindrical), and no other cell changes. A new zeroed
     grid has the same geometry, no values and no weights and leaves the original untouched; setting
     arrays of another shape is refused; a vector grid applies every operation to all three components.""",
     ["histories", "inputs"], "all sequences of grid operations on Cartesian, cylindrical and vector grids",
     NOTEST + "performs an accumulation or a sequence of operations; both existing tests also pass if the setters do nothing.",
     ["src/grid/cartesian_grid.rs", "src/grid/cylindrical_grid.rs", "src/grid/vector_grid.rs"],
     [("add_value, add_to_cell, insert, add_trajectory_value, divide_by_*, set_data, set_weights, new_zeros", "src/grid/*.rs")],
     [("data", "value per cell", "src/grid/*.rs"), ("weight", "number of contributions per cell", "src/grid/*.rs")],
     ["get_data", "get_weights", "get_value"])

prop("C04", "Collapsing and slicing grids select and average the right cells",
     """Collapsing along an axis (or two axes, in either order) gives for each remaining cell the
     weight-weighted mean of the values along it, undefined values counting as zero, and the collapsed weights are the
     sums of the weights; cells without weight give NaN. Slicing returns the plane with the given index, or
     the plane of cells containing the given coordinate (the radius, angle or height on cylindrical grids), where the
     upper limit belongs to the last plane.""",
     ["inputs", "histories"], "all grid contents reachable by grid operations, all axes, indices and coordinates inside the limits",
     NOTEST + "collapses or slices a grid.",
     ["src/grid/cartesian_grid.rs", "src/grid/cylindrical_grid.rs", "src/grid/vector_grid.rs"],
     [("collapse, collapse_weight, collapse_two, collapse_two_weight, slice, slice_idx", "src/grid/*.rs")],
     [("data, weight", "value and weight per cell", "src/grid/*.rs")],
     ["results of the collapse and slice functions"])

prop("C05", "Outlier removal changes outliers only, by the selected rule",
     """Outlier removal leaves every cell whose value does not exceed the threshold exactly as it
     was, value and weight. Cells above the threshold become zero (mode 0) or the threshold (mode 1) with
     unchanged weights, or the mean value and mean weight of the up to 26 cells around them that exist in the
     grid, computed from the state before the call (mode 2; on Cartesian grids only neighbours that are not outliers themselves
     count, NaN if there is none); any other mode is refused.""",
     ["inputs", "histories"], "all grid shapes including single-cell axes, contents (including border and adjacent outliers) and thresholds",
     "The source says so itself: 'TODO test outlier removal'.",
     ["src/grid/cartesian_grid.rs", "src/grid/cylindrical_grid.rs", "src/grid/vector_grid.rs"],
     [("outlier_removal", "src/grid/*.rs")], [("data, weight", "value and weight per cell", "src/grid/*.rs")],
     ["get_data, get_weights after outlier_removal"])

prop("C06", "A particle selector accepts exactly the configured particles and times",
     """Each of radius, clouds, density and particle id has its own filter: no restriction (first entry -1,
     or 0 for ids), equality with a single entry, an inclusive range for two entries, membership for more; a
     particle is selected iff all four filters accept it, independently of each other. A
     time is selected iff it lies in the inclusive time window last set.""",
     ["inputs", "configurations", "histories"], "all selector configurations, particles and window updates",
     NOTEST + "constructs a selector.",
     ["src/particleselector.rs"],
     [("is_valid, timestep_valid, set_time", "src/particleselector.rs")],
     [("radius, clouds, density, particleid, time", "filters", "ParticleSelector")],
     ["is_valid", "timestep_valid"])

prop("C07", "The velocity field is the per-cell mean of the selected speeds",
     """For every dataset, grid, selector, velocity mode and speed window, the velocity field
     holds in each cell the arithmetic mean of the requested velocity measure (magnitude, one
     component, or the magnitude in a coordinate plane) over exactly the samples of all time steps (first and last
     included) that are selected, have defined position and velocity, lie in that cell and in the inclusive
     speed window, and NaN in cells without such samples. The weight of a cell is the number of these samples.""",
     ["inputs", "histories", "configurations"], "all sequences of snapshots, selectors, grids, modes and speed windows",
     "No test runs an analysis function offline (the python tests need data files and only check that plots are produced).",
     ["src/functions.rs"], [("velocityfield", "src/functions.rs")],
     [("velocity_grid", "accumulator", "src/functions.rs")], ["returned grid"], HOOK)

prop("C08", "The vector field is the per-cell mean velocity in grid coordinates",
     """For every dataset, grid and selector, the three components of the vector field hold in each cell the mean of the
     velocity components of exactly the selected samples with defined position and velocity in that cell (NaN without samples), with
     their number as weight. On Cartesian grids the components are those recorded; on cylindrical grids they are the
     radial velocity, the angular velocity and the vertical velocity relative to the axis of the grid.""",
     ["inputs", "histories", "configurations"], "all sequences of snapshots, selectors and grids (centred anywhere)",
     "No test runs an analysis function offline.",
     ["src/functions.rs", "src/grid/vector_grid.rs"],
     [("vectorfield", "src/functions.rs"), ("velocity_calculation", "src/grid/vector_grid.rs")],
     [("vectorgrid", "accumulator", "src/functions.rs")], ["returned vector grid"], HOOK)

prop("C09", "The number field counts every selected sample once; mean speed averages",
     """The number field holds, as value and as weight, the number of selected samples
     of all time steps whose position lies in the cell, so its sum equals the number of selected samples inside the grid.
     The mean speed over a dataset is the arithmetic mean of all defined speeds of all particles in the selected time
     window, and the recorded mean speed is reported unchanged.""",
     ["inputs", "histories"], "all sequences of snapshots, selectors and grids",
     "No test runs an analysis function offline.",
     ["src/functions.rs"], [("numberfield, mean_velocity_showcase, mean_velocity", "src/functions.rs")],
     [("number_grid", "accumulator", "src/functions.rs")], ["returned grid / number"], HOOK)

prop("C10", "The speed histogram bins every selected in-range speed exactly once",
     """The histogram edges divide the range from the recorded minimum speed to the given upper limit (or the recorded maximum
     speed if it is zero) into equal bins, and each bin holds the number of selected samples inside the grid
     whose speed lies in the bin, the lower edge included and the upper edge included only for the last bin. Speeds outside
     the range or undefined are not counted, and unknown properties are refused.""",
     ["inputs", "histories"], "all sequences of snapshots, selectors, grids, limits and bin counts >=1",
     "No test runs an analysis function offline.",
     ["src/functions.rs"], [("histogram", "src/functions.rs")], [("histogram, bin_edges", "counts and edges", "src/functions.rs")],
     ["returned counts and edges"], HOOK)

prop("C11", "Occupancy is the fraction of residence time spent in each cell",
     """For every pair of consecutive time steps of which the first is selected, each selected particle that starts inside the grid
     and is not slower than the minimum speed contributes the time between them, half to the cell it starts in and half to the
     cell it ends in on Cartesian grids (nothing to any cell if it ends outside) and all to its start cell on cylindrical grids; the occupancy field is
     these times divided by their total, so that it sums to one when all end inside. The homogeneity index
     is the standard deviation, over the height layers, of the weight-weighted layer means of that field, layers without weight counting only towards the number of layers.""",
     ["inputs", "histories"], "all sequences of at least two snapshots, selectors, grids and speed thresholds; the particles present keep their place in the records, later ones are appended, leaving ones are cut off at the end",
     "No test runs an analysis function offline.",
     ["src/functions.rs", "src/grid/cartesian_grid.rs"],
     [("occupancyfield, homogenity_index", "src/functions.rs"), ("add_trajectory_value", "src/grid/*.rs")],
     [("occupancy_grid, complete_time", "accumulators", "src/functions.rs")], ["returned grid / index"], HOOK)

prop("C12", "Granular temperature is the per-cell velocity standard deviation",
     """The granular temperature field holds in each cell the square root of the population variance of the requested velocity component (or of the
     mean of the three component variances) over exactly the selected samples with defined velocity in that cell, with their number as weight; it
     is zero where all velocities agree and NaN in cells without samples. Unknown modes are refused.""",
     ["inputs", "histories"], "all sequences of snapshots, selectors, grids and modes",
     "No test runs an analysis function offline.",
     ["src/functions.rs"], [("granular_temperature_field", "src/functions.rs")],
     [("squared_sum_*, sum_*, num_counts", "accumulators", "src/functions.rs")], ["returned grid"], HOOK)

prop("C13", "Dispersion is the per-cell sample variance of later particle positions",
     """For every selected sample in a cell whose time plus the requested lag lies within the recorded time, the position of the same particle at the time step
     closest to that later time is collected for that cell; cells with more than one defined later position hold the sum over
     the three axes of their sample variance, with weight one, and all others hold nothing. The mixing efficiency is the mean over the former cells.""",
     ["inputs", "histories"], "all sequences of snapshots (uneven steps included), selectors, grids and lags",
     "No test runs an analysis function offline.",
     ["src/functions.rs", "src/datamanager.rs"], [("dispersion", "src/functions.rs"), ("timestep_at_seconds_closest", "src/datamanager.rs")],
     [("squared_sum_*, sum_*, num_counts", "accumulators", "src/functions.rs")], ["returned grid and number"], HOOK)

prop("C14", "Mean squared displacement averages squared displacements after the lag",
     """For every selected sample in a cell whose time plus the lag lies within the recorded time, the squared
     distance to the position of the same particle at the time step closest to that later time is averaged per cell; the weight is the number
     of defined displacements and cells without any hold zero. The displacement curve reports, for evenly spaced lags from the first to the last,
     the average over all samples (the weighted mean of that field).""",
     ["inputs", "histories"], "all sequences of snapshots, selectors, grids, lags and numbers of lags",
     "No test runs an analysis function offline.",
     ["src/functions/mixing.rs"], [("msd_field, msd", "src/functions/mixing.rs")],
     [("distance", "accumulator", "src/functions/mixing.rs")], ["returned grid / arrays"], HOOK)

prop("C15", "The Lacey index follows its definition at every selected time step",
     """At every selected time step the Lacey index is (s0^2 - s^2)/(s0^2 - s0^2/N), where s0^2 = p(1-p) for the overall fraction p of
     type A among the selected particles of the two types, N is the number of cells and s^2 is the sum of squared deviations of the cell fractions from p
     over the cells holding at least the threshold number (and at least one) of particles of the two types, divided by N-1.
     Times and values of steps that are not selected stay zero, and there is one entry per time step.""",
     ["inputs", "histories"], "all sequences of snapshots, type labels, selectors, grids and thresholds, also when a type is absent",
     "No test runs an analysis function offline.",
     ["src/functions/mixing.rs"], [("lacey_mixing", "src/functions/mixing.rs")],
     [("type_a_grid, type_b_grid, type_counter", "accumulators", "src/functions/mixing.rs")], ["returned times and indices"], HOOK)

prop("C16", "The concentration field is the fraction of type A among types A and B",
     """The concentration field holds in each cell the number of selected samples of type A in that cell over all selected time steps divided by the number of those of type A or B,
     NaN where there are none, with that denominator as weight. Particles of other types, unselected particles and particles
     outside the grid have no influence.""",
     ["inputs", "histories"], "all sequences of snapshots, type labels, selectors and grids",
     "No test runs an analysis function offline.",
     ["src/functions/mixing.rs"], [("concentration_field", "src/functions/mixing.rs")],
     [("type_a_grid, type_b_grid", "accumulators", "src/functions/mixing.rs")], ["returned grid"], HOOK)

prop("C17", "Circulation times run from first to third boundary crossing per particle",
     """For each selected particle on its own, a crossing is a change from strictly one side of the boundary to strictly
     the other between consecutive selected time steps; the crossings of a particle are grouped in successive non-overlapping threes and each complete group
     yields one circulation time, from its first to its third crossing, reported in order of completion. Other particles, unselected time steps and a
     change of identity between steps never produce or disturb a crossing, and a boundary outside the recorded system is refused.""",
     ["histories", "inputs"], "all particle histories: any interleaving of crossings of several particles, time gaps and particles entering later",
     "No test runs an analysis function offline; the result depends on the whole history of each particle.",
     ["src/functions/conditional.rs"], [("circulation_time", "src/functions/conditional.rs")],
     [("start_flag_array, time_flag_array", "per-particle automaton", "src/functions/conditional.rs")], ["returned list"], HOOK)

prop("C18", "Circulations between two boundaries run from departure to departure",
     """For each selected particle on its own, a circulation starts when it leaves the region above the upper or below the lower boundary (its home, fixed by
     the first such departure) and ends at the next departure from home before which it has entered the opposite region; a
     departure without such a visit restarts the clock. Each circulation is reported once as (start, end), in order of completion, and the end of one is the
     start of the next, also when a single step crosses both boundaries; boundaries outside the recorded system are refused.""",
     ["histories", "inputs"], "all particle histories relative to lower<upper boundaries, several particles interleaved, selected time windows",
     "No test runs an analysis function offline; the result depends on the whole history of each particle.",
     ["src/functions/conditional.rs"], [("circulation_time_two_boundary", "src/functions/conditional.rs")],
     [("start_flag_array, mid_flag_array, time_flag_array", "per-particle automaton", "src/functions/conditional.rs")], ["returned list"], HOOK)

prop("C19", "Extraction returns the recorded rows of one particle unchanged",
     """Extracting a particle over a range of time steps (end exclusive, up to the number of time steps) returns one row per
     time step, in order, with exactly the recorded time, position and velocity of that particle. Ranges beyond the recorded steps are refused.""",
     ["inputs"], "all datasets, particles and ranges", "No test runs an analysis function offline.",
     ["src/functions/extractions.rs"], [("extract", "src/functions/extractions.rs")], [], ["returned table"], HOOK)

prop("C20", "Time lookup returns a time step no other is closer than",
     """For every strictly increasing time axis, even or uneven and of any resolution, looking up a time within the recorded range returns a time step such that no other is closer to
     that time; times before the first or after the last step are errors.""",
     ["inputs"], "all increasing time axes (also a single step) and query times, including exact hits and both ends",
     "No test calls it; the code itself warns that it is not tested.",
     ["src/datamanager.rs"], [("timestep_at_seconds_closest", "src/datamanager.rs")],
     [("low, high, mid", "search interval", "src/datamanager.rs")], ["returned index or error"], HOOK)

prop("C21", "Field calculations depend only on dataset, selection and grid geometry",
     """The result of a field calculation does not depend on values or weights already in the grid that is passed in, on calculations
     that were run before on the same data, or on the order of the particles within the records; the passed data are not
     modified. Restricting the selector never adds samples, and the samples of two disjoint time windows add up to those of their union.""",
     ["inputs", "histories"], "all sequences of calculations on one dataset, arbitrary prior grid contents, particle permutations and window splits",
     "Needs relations between several runs over arbitrary histories; no test runs an analysis function offline.",
     ["src/functions.rs", "src/functions/mixing.rs", "src/grid/cartesian_grid.rs", "src/grid/cylindrical_grid.rs"],
     [("new_zeros; accumulators per call", "src/functions.rs, src/functions/mixing.rs")], [], ["returned grids"], HOOK)

prop("C22", "Numeric helpers ignore undefined values and keep element order",
     """Mean and standard deviation over a grid array use exactly the defined (non-NaN) values, and minimum/maximum of a list are those of its defined values; mesh grids
     repeat each coordinate along the other axes so that element (i,j[,k]) holds the i-th, j-th [and k-th] coordinates; flattening
     keeps every element in row-major order.""",
     ["inputs"], "all arrays and shapes, including NaN entries", NOTEST + "calls these helpers.",
     ["src/utilities.rs", "src/utilities/maths.rs"], [("nan_mean, nan_std, minmax, meshgrid, meshgrid3d, flatten_2d, flatten_3d", "src/utilities.rs, src/utilities/maths.rs")],
     [], ["returned values"])

prop("C23", "Rotations are rigid, applied about x, then y, then z around the anchor",
     """Rotating a position turns it right-handedly around the anchor point about the x, then the y, then the z axis by the three given angles: the anchor is a fixed point, distances are kept and
     the position agrees with the composed rotation; rotating a velocity applies the same rotation without the anchor.""",
     ["inputs"], "all positions, velocities, anchors and angles that are multiples of a right angle, and angles with rational sine and cosine",
     NOTEST + "rotates anything.",
     ["src/datamanager/utilities.rs"], [("rotate_position, rotate_velocity", "src/datamanager/utilities.rs")], [],
     ["returned vectors"], "datamanager::verif_hooks::{rotate_position, rotate_velocity}")

prop("C24", "Comparing two datasets evaluates both on the same grid with all particles",
     """The comparison of velocities returns, for each dataset, its velocity field over all particles and times on the grid of the comparison, cell by cell in the same order. The binarised
     field used for alignment is one exactly in the cells above the chosen quantile of the non-zero values and zero elsewhere; quantiles outside 0..1 and unknown grid
     types are refused, and a comparison grid spans exactly the given dimensions.""",
     ["inputs", "configurations"], "all pairs of datasets, grids, speed windows, fields and quantiles",
     NOTEST + "constructs a comparison.",
     ["src/comparison.rs"], [("compare, velocityfield, binary_threshold, make_grid", "src/comparison.rs")], [],
     ["returned arrays and grids"], "comparison::verif_hooks::*")

IO = NOTEST + "opens a data file: the offline build does not even compile the HDF5 parts."

prop("C25", "Reading files of time steps gives the recorded step through every buffer",
     """However long a file by time steps (TData) is, and in whatever order its steps are asked for, directly or through any of the further read buffers that were set up before, a
     read returns exactly the recorded time and particles of the step asked for, in order, with density one where none is recorded. Reads through one buffer never change what
     another one returns, and the statistics are those recorded in the file.""",
     ["inputs", "histories"], "all files, also longer than the read buffer, and all sequences of reads and buffer set-ups", IO,
     ["src/datamanager/tdata.rs"], [("get_timestep, get_timestep_buffer, setup_buffer, get_timestep_unbuffered", "src/datamanager/tdata.rs")],
     [("buffer, extra_buffer, low/high", "window of steps every buffer holds", "src/datamanager/tdata.rs")], ["returned time steps", "global_stats"])

prop("C26", "Reading files of particles gives the recorded step through every buffer",
     """However long a file by particles (PData) is, and in whatever order its steps are asked for, directly, unbuffered or through any of the further read buffers that were set up
     before, a read returns exactly the recorded time and the samples of all particles at that step, numbered in order; missing densities are one, missing radii and types zero.
     Reads through one buffer never change what another one returns, and the statistics are those recorded in the file.""",
     ["inputs", "histories"], "all files, also longer than the read buffer, and all sequences of reads and buffer set-ups", IO,
     ["src/datamanager/pdata.rs"], [("get_timestep, get_timestep_buffer, setup_buffer, get_timestep_unbuffered", "src/datamanager/pdata.rs")],
     [("buffer, extra_buffer, low/high", "window of steps every buffer holds", "src/datamanager/pdata.rs")], ["returned time steps", "global_stats"])

prop("C27", "Converting a CSV file of one particle keeps its samples in time order",
     """The data file converted from a CSV table holds one trajectory: the rows sorted by time, of rows at the same time only the first, with exactly the chosen columns as time, position and
     velocity and the given radius, whatever the separator, header, comments and column order. Its extents, time range, number of steps, sample rate, velocity minimum, mean
     and maximum per component and in magnitude are those of the kept samples, and reading it back gives them.""",
     ["inputs", "configurations"], "all tables, column choices and separators", IO.replace("opens a data file", "converts a file"),
     ["src/converter.rs", "src/converter/convertertools.rs"], [("csv_converter", "src/converter.rs"), ("sort_by_column, is_sorted", "src/converter/convertertools.rs")],
     [("old_time, total_failcount", "last kept time and rows left out", "csv_converter")], ["datasets and attributes of the converted file", "steps read back"])

prop("C28", "Converting one file per time step keeps every particle of every step",
     """Converted VTK files (legacy and XML) and CSV files per time step give one group per file, in the order of the files (folders: in the order of the numbers in the names), with the time of the
     file and exactly its particles: VTK particles sorted by their identifier with all their fields moved along, radius from a radius or half a diameter, type one where no
     field is named; CSV particles in their order. Extents, time range, number of steps, sample rate and velocity statistics are those of all samples; decreasing times are refused.""",
     ["inputs", "configurations"], "all file lists and particle orders, fields, pieces of XML files, naming", IO.replace("opens a data file", "converts a file"),
     ["src/converter.rs", "src/converter/csv_modes/csv_multi_file_time_step.rs", "src/converter/legacytools.rs", "src/converter/xmltools.rs", "src/converter/convertertools.rs"],
     [("LegacyVTKConverter, XMLVTKConverter", "src/converter.rs"), ("make_sortlist, sort_by_array", "src/converter/convertertools.rs"), ("get_field, get_positions", "src/converter/legacytools.rs, src/converter/xmltools.rs")],
     [], ["datasets and attributes of the converted file", "steps read back"])

prop("C29", "Converting a CSV file of several particles separates their trajectories",
     """A table of several trajectories becomes one group per particle: in mode "chain" a row that is earlier than the row before starts the next one and trajectories below ten rows are left out, in
     mode "id_line" the rows of one identifier form a particle, in ascending order of the identifiers. Every trajectory keeps its rows in time order, of rows at the same time only the first.
     No other row is lost, duplicated or given to another particle; number of particles, longest number of steps, extents, time range and velocity statistics are those of all kept samples.""",
     ["inputs", "configurations"], "all tables with any number of trajectories, row orders, identifiers and repeated times", IO.replace("opens a data file", "converts a file"),
     ["src/converter/csv_modes/csv_multi_chain.rs", "src/converter/csv_modes/csv_multi_idline.rs"],
     [("csv_multi_chain", "src/converter/csv_modes/csv_multi_chain.rs"), ("csv_multi_idline, sort_by_id", "src/converter/csv_modes/csv_multi_idline.rs")],
     [("indx_start", "first row of every trajectory", "csv_multi_chain"), ("last_line_pushed", "rows of every identifier so far", "sort_by_id")],
     ["datasets and attributes of the converted file", "steps read back"])

prop("C30", "Velocities computed by a conversion are the slopes of the best parabola",
     """With velocity computation, the velocity of a sample is the slope, at the time of the sample, of the parabola that fits best the window of samples centred on it; positions and times stay and
     only the half windows at both ends are left out. With interpolation, samples are first placed at equal time distances on the line through the neighbours of the nearest recorded
     sample, the first and the last one staying, so that motion along a line at constant speed keeps its line and speed. This holds for every particle of a multi particle file on its own.""",
     ["inputs", "configurations"], "all trajectories (also uneven), window lengths and all CSV modes", IO.replace("opens a data file", "converts a file"),
     ["src/converter/convertertools.rs", "src/converter.rs", "src/converter/csv_modes/csv_multi_chain.rs", "src/converter/csv_modes/csv_multi_idline.rs"],
     [("velocity_polynom, interpolate", "src/converter/convertertools.rs")], [], ["datasets and attributes of the converted file"])

PY = NOTEST + "calls anything from Python: the offline build does not compile the Python interface, the tests of the package need plotly and recorded data."
PLOT = ["src/pylib/libplot.rs", "src/plotting/plotting_2d.rs", "up4/plotting.py"]

prop("C31", "Maps and contours show the field itself at the place of its cells",
     """A scalar map or contour made in Python shows, at the position of every cell of the plane across the chosen axis, exactly the depth average of the field (or its value in the chosen plane), or the
     length of the two in-plane components of a vector field; no cell is missing, shown twice, transposed or mirrored, cells without data stay empty. Contours are ten levels from the smallest to the largest value,
     the colours are those of the named colour map. The plot method of a grid shows its depth average.""",
     ["inputs", "configurations"], "all grids (both shapes), fields, axes, selections, planes and colour maps", PY,
     PLOT + ["src/pylib/libgrid.rs", "src/plotting.rs"],
     [("scalar_map, scalar_contour, selector_scalar", "src/plotting/plotting_2d.rs"), ("collapse, slice", "src/grid")], [], ["traces of the plotly figure"])

prop("C32", "Arrows of quiver plots have the direction and scaled length of the field",
     """A quiver plot made in Python has one closed arrow per cell, based at the centre of the cell, along the two in-plane components of the depth-averaged (or chosen plane of the) field, in their order. Without scaling its length is
     that of the vector; "min" only lengthens shorter ones, "max" only shortens longer ones, "minmax" both, to the given sizes; "half_node" and "full_node" scale all by one factor per axis so that the longest is half
     or one cell. Unit vectors are half a cell long whatever the speed. Colours follow the speed from the slowest to the fastest.""",
     ["inputs", "configurations"], "all vector fields, grids, axes, selections, scaling modes and sizes", PY,
     PLOT + ["src/plotting/plotting_2d/quiver.rs", "src/plotting/plotting_2d/unit_vector.rs"],
     [("quiver_plot, unit_vector_plot, scaling", "src/plotting/plotting_2d.rs, src/plotting/plotting_2d")], [], ["traces of the plotly figure"])

prop("C33", "Parity plots compare the two fields cell by cell",
     """A parity plot made in Python pairs, for every cell of the plane across the axis, the value of the plotted field (to the right) with that of the comparison field (upwards), for vector fields once per in-plane component, and draws
     the line of equal values over the range of both. A parity map shows, at the place of every cell, the field minus the comparison, so a field against itself is zero and swapping the two changes the sign.""",
     ["inputs", "configurations"], "all pairs of fields on grids of equal shape, axes, selections and planes", PY,
     PLOT, [("parity_plot, parity_map, parity_contour", "src/plotting/plotting_2d.rs")], [], ["traces of the plotly figure"])

prop("C34", "Recorded data are looked up like a Python sequence",
     """A Data object opened in Python behaves like the sequence of its recorded time steps: its length is their number, a whole number (also counted from the end), a list or a slice (with any start, end and stride, also
     backwards) in brackets gives exactly those steps with all their particles, iteration gives all in order and ends; whatever is not recorded is refused. Its dimensions, times, number of particles, smallest and largest positions are
     those of the file; opening a file finds out how it is laid out.""",
     ["inputs", "configurations"], "all recordings of both kinds of files and all indices, lists and slices", PY,
     ["src/pylib.rs"], [("__getitem__, __len__, time, dimensions, min_position, max_position", "src/pylib.rs")], [("select", "time window for analyses only; lookups ignore it", "PyData")],
     ["values returned to Python"])

prop("C35", "Grids made in Python have the region and cells asked for",
     """A grid made in Python takes its region from six limits, from one pair per axis or from the data, with single axes replaced, and its number of cells from a list or from the size of a cell, as many as
     fit; every combination of these is either honoured exactly or refused. All its views (arrays, weights, positions, slices by index or coordinate, depth averages over one or two axes, inside test, cell lookup) show
     the same field with its axes in order, and removing outliers changes this grid in place.""",
     ["inputs", "configurations"], "all argument combinations, limits (also negative), cell counts and sizes, both grid styles and all fields", PY,
     ["up4/grid.py", "src/pylib/libgrid.rs"], [("Grid.__new__", "up4/grid.py"), ("PyGrid, PyVecGrid", "src/pylib/libgrid.rs")], [], ["values returned to Python"])

prop("C36", "Analyses called from Python do what their arguments say",
     """Every analysis called from Python takes its parameters by position or by name, with the documented defaults, refuses missing, unknown or ill-typed ones, and gives exactly the result that the analysis
     of that name with these arguments has on the recorded data within the time window last set on this Data object (everything, if none was set), in the shape and order documented.""",
     ["inputs", "configurations", "histories"], "all recordings, grids, analyses, argument values and ways to give them, and all time windows set before", PY,
     ["src/pylib.rs"], [("numberfield, vectorfield, velocityfield, occupancyfield, histogram, msd, dispersion, ...", "src/pylib.rs"), ("set_time", "src/pylib.rs")],
     [("select", "time window used by all later analyses", "PyData")], ["values returned to Python"])

prop("C37", "Conversions called from Python do what their arguments say",
     """Every conversion called from Python takes its parameters by position or by name, with the documented defaults, and writes exactly the data file that the conversion of these input files with these arguments is: the columns, delimiter, comment
     sign, header, names of fields, radius or diameter, times and file name pattern given are the ones used. Missing files, arguments of a wrong type, columns that do not fit and contents of another kind are refused and leave no data file.""",
     ["inputs", "configurations"], "all input files of the supported formats and all combinations of arguments of all conversions", PY,
     ["src/pylib/libconv.rs", "src/converter.rs", "src/converter/"], [("Converter.csv, csv_multi, csv_multi_files, vtk, vtk_from_folder", "src/pylib/libconv.rs")], [], ["data file written", "success or refusal"])

prop("C38", "Arguments of plots are honoured or refused, never misunderstood",
     """A call of a plot method succeeds exactly when its axis exists, its selection is known and has a plane that exists where it needs one, its scaling mode is known and has the sizes it needs, its colour map is known (in any case) and
     its fields are of the right kind; style and layout given are applied to the figure after all traces; what a call does not use changes nothing. Saving a figure scales it so that its width fills the paper between the borders at the resolution asked for.""",
     ["configurations", "inputs"], "all combinations of arguments of all plot methods, given by position or by name", PY,
     PLOT, [("quiver_plot, unit_vector_plot, scalar_map, ..., save_fig", "up4/plotting.py"), ("argument checks", "src/pylib/libplot.rs")], [], ["success or refusal", "figure handed to plotly", "scale of saved images"])

prop("C39", "Objects in Python change by their own calls only",
     """Whatever sequence of calls is made on the data, grids, fields and plotters of a Python session: a call changes the object it is made on or none (only set_time and remove_outliers change one), a refused call changes nothing, no analysis writes
     into the grid it is given or into earlier results, a time window set on one Data object affects no other one even of the same file, and plotters keep showing the field as it was when they were made.""",
     ["histories"], "all sequences of calls on any number of objects of several recordings", PY,
     ["src/pylib.rs", "src/pylib/libgrid.rs", "src/pylib/libplot.rs", "up4/plotting.py"],
     [("PyData.set_time, PyGrid.remove_outliers", "src/pylib.rs, src/pylib/libgrid.rs"), ("Plotter2D.__init__", "up4/plotting.py")],
     [("select", "time window", "PyData"), ("grid", "values and weights", "PyGrid"), ("_plotter", "copy of the field", "Plotter2D")], ["values of all objects after every call"])

prop("C40", "Analyses see every recorded step of files of any length",
     """However long a recording is compared with the read buffers, and whatever analyses, lookups and iterations were made on the Data object before, an analysis, also one of pairs of steps or of steps a time span apart, and a
     lookup take every step they are about into account once and with its own particles: they give what they would on a Data object just opened, in both layouts of files.""",
     ["histories", "inputs"], "all sequences of analyses and lookups on recordings shorter and longer than the read buffers", PY,
     ["src/functions.rs", "src/functions/mixing.rs", "src/functions/conditional.rs", "src/datamanager/tdata.rs", "src/datamanager/pdata.rs"],
     [("get_timestep, setup_buffer, get_timestep_buffer as used by the analyses", "src/functions.rs, src/functions/mixing.rs"), ("get_timestep, update, update_extra", "src/datamanager")],
     [("buffer, buffer_extra, range, range_extra", "windows of steps the buffers hold", "src/datamanager")], ["values returned to Python"])

prop("C41", "Analyses of converted data are those of the measured data",
     """Measured data that are converted from Python (CSV with one or several particles, a file per step, VTK files or folders) and then opened and analysed give the results of the particles and times in the input files: every row is there
     once with its time, position and velocity (or the computed velocity), whatever the order of rows and files, the delimiter, the chosen columns and the form; extents, times and mean speed are those of the input; a file that is converted
     again is replaced, and a conversion that cannot be made gives no data of that name.""",
     ["inputs", "histories"], "all input files of any of the forms x ways to pass arguments x analyses", PY,
     ["src/converter.rs", "src/pylib/libconv.rs", "src/pylib.rs", "src/datamanager/tdata.rs", "src/datamanager/pdata.rs", "src/functions.rs"],
     [("Converter.*, Data(...), grids and analyses in one session", "src/pylib")],
     [("data files", "written by conversions, read by Data objects", "src/converter, src/datamanager")], ["values returned to Python"])

prop("C42", "Printed summaries tell the recorded numbers",
     """What is printed of data (str, repr: extents of each axis and their widths, last time, number of particles and of time steps, mean, lowest and highest speed; stats(): the same without time steps) are the recorded
     numbers under their names, whatever was analysed or filtered before. What is printed of a grid (str, repr) are its numbers of cells and its limits (radius and height for a cylinder), and for a scalar field as it is at that
     time the mean, population standard deviation, minimum and maximum of the cells that have a value: cells without one (NaN) do not count, and if no cell has a value neither do the numbers.""",
     ["inputs", "histories"], "all data x all fields x histories of calls before", PY,
     ["src/pylib.rs", "src/pylib/libgrid.rs", "src/utilities.rs", "src/datamanager/tdata.rs", "src/datamanager/pdata.rs"],
     [("str(data), repr(data), data.stats(), str(grid), repr(grid)", "src/pylib.rs, src/pylib/libgrid.rs")],
     [("global_stats, grid values", "numbers that are told", "src/datamanager, src/grid")], ["printed numbers"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
