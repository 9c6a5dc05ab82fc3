"""Attribute names the rules were written for.  A value which is built from a field with
another name (a renamed or an added field) is not understood rather than wrong."""
ATTRS = frozenset("""
AVERAGE_TIMESERIES C CH4 CONSTANT Context DataFrame E ENOENT ExcelFile GENERIC HIERARCHY_SEPARATOR Index
LINEAR MultiIndex NONE NOx Number PIPE POINT_TIMESERIES Popen Quantity REQUIRED_COLS SCALAR Series T Unit
UnitRegistry VCS _Parameter __array__ __array_ufunc__ __class__ __del__ __getitem__ __init__ __iter__ __len__
__module__ __name__ __qualname__ __read__ __repr__ __setattr__ __setitem__ __str__ __version__ __wrapped__
__write__ _add_arithmetic_ops _add_comparison_ops _add_gases _add_mass_emissions_joint_version _apply_filters
_calc_continuous_representation _calc_integral_preserving_linear_interpolation _calc_interval_averages
_calc_step _check_write _child_data_views _children _contexts _contexts_loaded _convert _convert_unsafe
_create_arithmetic_method _current_time _data _day_match _extrapolation_type _float_year_to_datetime
_format_data _format_datetime _format_datetime_col _format_long_data _format_wide_data _from_ts
_get_dimensionality _get_or_create_parameter _get_or_create_region _get_region _get_scipy_extrapolation_args
_get_scipy_interpolation_arg _get_transform_func _get_values _handle_potential_duplicates_in_append
_has_been_aggregated _initialize_model _initialize_model_input _initialize_run_parameters _initialized
_initialized_inputs _input_parameters _interpolation_type _load_contexts _load_metric_conversions
_loaded_adapters _locked _meta _model _model_name _name _ndarray _offset _output _output_parameters _parameter
_parameter_view _parameters _parent _parse_datetime _pending _read _read_file _read_pandas _reset _root _run
_scaling _shutdown _sort_meta_cols _source _step _target _time_points _time_points_to_seconds _timeseries
_timeseries_converter _timeseries_type _timestep _timestep_count _unit_converter _units _values _version
_writable _write abspath adapter add_context add_standards add_transformation any append apply apply_dt
apply_rollback apply_rollforward apply_test arithmetic_method array asarray assign astype atleast_2d
attempt_aggregate attempt_read attempt_write b11 b12 b21 b22 b23 b32 b33 basename c1 c3 c4 carbon children
close columns communicate compile concat concatenate context contexts conv_strs convert_from
convert_openscm_to_scmdataframe convert_str_to_datetime convert_to convert_unit copy copyto create_time_points
data data_hierarchy_separator date datetime datetime64 datetime_match day_match days decode decorate deepcopy
define df_append dimensionality dirname drop drop_duplicates dropna dtype duplicated empty enable_contexts
endswith ensure ensure_contexts_loaded errno errstate escape exc_info exists fco22x fex0 fex1 filter
find_depth findall flatten floating forc forcoth_saturation_time format from_arrays from_extrapolation_type
from_interpolation_type from_timeseries_type frompyfunc full full_name generate_range generic get get_config
get_data_views_for_children_or_parameter get_keywords get_or_create_child_parameter get_or_create_parameter
get_or_create_subregion get_parameter get_subparameter get_subregion get_versions git_get_keywords
git_pieces_from_vcs git_versions_from_keywords group groupby guess guess_parameter_type has_been_read_from
has_been_written_to head hour_match hours iloc index info initialize_model_input initialize_run_parameters
int64 integer interp1d interpolate intersection is_in isin isna isnan isnull isoformat issubset items
iteritems iterrows join keys kind kwds length line_plot linspace load_adapter loc localize_pydatetime lock
lower m magnitude mat mat0 mat_lower match mateq mean median merge meta metadata ml ml0 ml_lower mleq model
month_match months mu mu0 mu_lower mueq name names nan nbytes ndarray ndim newaxis nitrogen normalize nout
onOffset original_rounding output p parameter_name_to_scm parameter_type parameters parent parentdir_prefix
parse path pattern_match period_length pivot_table platform plus_or_dot pop process_over quad quantile
read_csv read_excel readlines realpath region region_plot register_vcs_handler relative_to_ref_period_mean
rename render render_git_describe render_git_describe_long render_pep440 render_pep440_old render_pep440_post
render_pep440_pre reorder_levels replace resample reset reset_index reset_stepping reshape result_backward
result_forward returncode rindex rollback rollforward root_params rule_code run run_command scalar scatter
search set_index set_meta set_parameter setter shape sheet_names sort_index source source_length split squeeze
start_time startswith step stop_time strip strptime style sub sum t2xco2 tag_prefix tail target target_length
tatm tatm0 tatm_upper test time_match time_points timedelta64 timeseries timeseries_type_to_string to
to_base_units to_csv to_frame to_iamdataframe to_index to_list to_offset to_parameterset tocean tocean0
tocean_lower tocean_upper tolist total_seconds type tzinfo unit unit_registry units unlock update upper value
values variable vectorize verbose version version_info versionfile_source versions_from_parentdir
walk_parameters walk_regions warn warning weekday weekdays where wrap_funcs wrapper wraps years years_match
""".split())
