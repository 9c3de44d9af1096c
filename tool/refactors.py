# ---- clocking loop
ref("cti-read-helper",
    (C, "std::valarray<std::valarray<double> > clock_charge_in_one_direction(", """static double charge_in_phase(
    const std::valarray<std::valarray<double> >& image, ROEStepPhase* step,
    unsigned int row, unsigned int column) {
    double total = 0;
    for (int i = 0; i < step->n_capture_pixels; i++) {
        unsigned int from = row + step->capture_from_which_pixels[i];
        if (from < image.size()) total += image[from][column];
    }
    return total;
}

std::valarray<std::valarray<double> > clock_charge_in_one_direction("""),
    (C, """                        n_free_electrons = 0;
                        for (int i = 0; i < roe_step_phase->n_capture_pixels; i++) {
                            row_read = row_index +
                                       roe_step_phase->capture_from_which_pixels[i];

                            // Nothing to capture beyond the edges of the image
                            if ((row_read < 0) || (row_read >= (int)n_rows)) continue;

                            n_free_electrons += image[row_read][column_index];
                        }

                        print_v(2, "row_read  %d \\n", row_read);
""", """                        n_free_electrons =
                            charge_in_phase(image, roe_step_phase, row_index, column_index);

"""))
ref("cti-species-helper",
    (C, "std::valarray<std::valarray<double> > clock_charge_in_one_direction(", """static double all_species(TrapManagerManager& m, unsigned int i_phase, double n_free) {
    double n = 0;
    if (m.n_traps_ic > 0)
        n += m.trap_managers_ic[i_phase].n_electrons_released_and_captured(n_free + n);
    if (m.n_traps_sc > 0)
        n += m.trap_managers_sc[i_phase].n_electrons_released_and_captured(n_free + n);
    if (m.n_traps_ic_co > 0)
        n += m.trap_managers_ic_co[i_phase].n_electrons_released_and_captured(n_free + n);
    if (m.n_traps_sc_co > 0)
        n += m.trap_managers_sc_co[i_phase].n_electrons_released_and_captured(n_free + n);
    return n;
}

std::valarray<std::valarray<double> > clock_charge_in_one_direction("""),
    (C, """                        n_electrons_released_and_captured = 0;
                        if (trap_manager_manager.n_traps_ic > 0)
                            n_electrons_released_and_captured +=
                                trap_manager_manager.trap_managers_ic[i_phase]
                                    .n_electrons_released_and_captured(
                                        n_free_electrons +
                                        n_electrons_released_and_captured);
                        if (trap_manager_manager.n_traps_sc > 0)
                            n_electrons_released_and_captured +=
                                trap_manager_manager.trap_managers_sc[i_phase]
                                    .n_electrons_released_and_captured(
                                        n_free_electrons +
                                        n_electrons_released_and_captured);
                        if (trap_manager_manager.n_traps_ic_co > 0)
                            n_electrons_released_and_captured +=
                                trap_manager_manager.trap_managers_ic_co[i_phase]
                                    .n_electrons_released_and_captured(
                                        n_free_electrons +
                                        n_electrons_released_and_captured);
                        if (trap_manager_manager.n_traps_sc_co > 0)
                            n_electrons_released_and_captured +=
                                trap_manager_manager.trap_managers_sc_co[i_phase]
                                    .n_electrons_released_and_captured(
                                        n_free_electrons +
                                        n_electrons_released_and_captured);
""", """                        n_electrons_released_and_captured =
                            all_species(trap_manager_manager, i_phase, n_free_electrons);
"""))
ref("cti-write-helper",
    (C, "std::valarray<std::valarray<double> > clock_charge_in_one_direction(", """static void return_charge(
    std::valarray<std::valarray<double> >& image, const ROEStepPhase* step, unsigned int row,
    unsigned int column, double n, int allow_negative_pixels) {
    for (int i = 0; i < step->n_release_pixels; i++) {
        int to = (int)row + step->release_to_which_pixels[i];
        if (to < 0 || to >= (int)image.size()) continue;
        double& pixel = image[to][column];
        pixel += n * step->release_fraction_to_pixels[i];
        if (!allow_negative_pixels && pixel < 0.0) pixel = 0.0;
    }
}

std::valarray<std::valarray<double> > clock_charge_in_one_direction("""),
    (C, """                        for (int i = 0; i < roe_step_phase->n_release_pixels; i++) {
                            row_write =
                                row_index + roe_step_phase->release_to_which_pixels[i];

                            // Charge released beyond the edges leaves the image
                            if ((row_write < 0) || (row_write >= (int)n_rows)) continue;

                            image[row_write][column_index] +=
                                n_electrons_released_and_captured * express_multiplier *
                                roe_step_phase->release_fraction_to_pixels[i];

                            // Make sure image counts don't go negative, which
                            // could happen with a too-large express multiplier
                            if (!allow_negative_pixels) {
                                if (image[row_write][column_index] < 0.0)
                                    image[row_write][column_index] = 0.0;
                            }
                            
                            print_v(2, "row_write  %d \\n", row_write);
                            print_v(
                                2, "image[%d][%d]  %g \\n", row_write, column_index,
                                image[row_write][column_index]);
                        }
""", """                        return_charge(
                            image, roe_step_phase, row_index, column_index,
                            n_electrons_released_and_captured * express_multiplier,
                            allow_negative_pixels);
"""))
ref("cti-clamp-max",
    (C, """                            if (!allow_negative_pixels) {
                                if (image[row_write][column_index] < 0.0)
                                    image[row_write][column_index] = 0.0;
                            }
""", """                            if (!allow_negative_pixels)
                                image[row_write][column_index] =
                                    (image[row_write][column_index] < 0.0)
                                        ? 0.0
                                        : image[row_write][column_index];
"""))
ref("cti-local-charge",
    (C, """                            image[row_write][column_index] +=
                                n_electrons_released_and_captured * express_multiplier *
                                roe_step_phase->release_fraction_to_pixels[i];
""", """                            const double fraction = roe_step_phase->release_fraction_to_pixels[i];
                            const double n_returned =
                                express_multiplier * n_electrons_released_and_captured;
                            image[row_write][column_index] =
                                image[row_write][column_index] + n_returned * fraction;
"""))
ref("cti-row-loop",
    (C, """            for (unsigned int i_row = 0; i_row < n_active_rows; i_row++) {
                row_index = row_start + i_row;

                print_v(2, "# #  i_row, row_index  %d,  %d \\n", i_row, row_index);

                express_multiplier =
                    roe->express_matrix[express_index * n_rows + row_index];
                if (express_multiplier == 0) continue;
""", """            unsigned int i_row = 0;
            while (i_row < n_active_rows) {
                row_index = row_start + i_row;

                print_v(2, "# #  i_row, row_index  %d,  %d \\n", i_row, row_index);

                const unsigned int i_express = express_index * n_rows + row_index;
                express_multiplier = roe->express_matrix[i_express];
                if (express_multiplier == 0) {
                    i_row++;
                    continue;
                }
"""),
    (C, """                    trap_manager_manager.store_trap_states();
                }
            }
        }

        // Reset""", """                    trap_manager_manager.store_trap_states();
                }
                i_row++;
            }
        }

        // Reset"""))
ref("cti-skip-as-if",
    (C, "                if (express_multiplier == 0) continue;\n", "                if (express_multiplier != 0) {\n"),
    (C, """                    print_v(2, "store_trap_states \\n");
                    trap_manager_manager.store_trap_states();
                }
            }
        }
""", """                    print_v(2, "store_trap_states \\n");
                    trap_manager_manager.store_trap_states();
                }
                }
            }
        }
"""))
ref("cti-prune-cond",
    (C, """                if (prune_frequency > 0) {
                    if (((i_row + 1) % prune_frequency) == 0) {
                        trap_manager_manager.prune_watermarks(prune_n_electrons);
                    }
                }
""", """                const bool prune_now =
                    prune_frequency > 0 && (i_row + 1) % prune_frequency == 0;
                if (prune_now) trap_manager_manager.prune_watermarks(prune_n_electrons);
"""))
ref("cti-locals-in-loop",
    (C, """    unsigned int column_index;
    unsigned int row_index;
    int row_read;
    int row_write;
    double n_free_electrons;
    double n_electrons_released_and_captured;
    double express_multiplier;
    ROEStepPhase* roe_step_phase;
""", ""),
    (C, """private(column_index, row_index, row_read, row_write, n_free_electrons, \\
				     n_electrons_released_and_captured, express_multiplier, roe_step_phase) \\
                             firstprivate""", """firstprivate"""),
    (C, """    for (unsigned int i_column = 0; i_column < n_active_columns; i_column++) {
        column_index = column_start + i_column;

        print_v(""", """    for (unsigned int i_column = 0; i_column < n_active_columns; i_column++) {
        unsigned int column_index = column_start + i_column;
        unsigned int row_index;
        int row_read;
        int row_write;
        double n_free_electrons;
        double n_electrons_released_and_captured;
        double express_multiplier;
        ROEStepPhase* roe_step_phase;

        print_v(""", 0))
ref("cti-flags",
    (C, """    if (parallel_traps_ic || parallel_traps_sc || parallel_traps_ic_co ||
        parallel_traps_sc_co) {
        print_v(1, "Parallel: ");""", """    const bool do_parallel = parallel_traps_ic != nullptr || parallel_traps_sc != nullptr ||
                             parallel_traps_ic_co != nullptr || parallel_traps_sc_co != nullptr;
    if (do_parallel) {
        print_v(1, "Parallel: ");"""))
ref("cti-early-return",
    (C, """    if (serial_traps_ic || serial_traps_sc || serial_traps_ic_co || 
        serial_traps_sc_co) {

        print_v(1, "Serial: ");
        image = transpose(image);""", """    if (!serial_traps_ic && !serial_traps_sc && !serial_traps_ic_co && !serial_traps_sc_co)
        return image;
    {
        print_v(1, "Serial: ");
        image = transpose(image);"""))
ref("cti-transposed-local",
    (C, """        image = transpose(image);
        image = clock_charge_in_one_direction(
            image, serial_roe""", """        std::valarray<std::valarray<double> > turned = transpose(image);
        turned = clock_charge_in_one_direction(
            turned, serial_roe"""),
    (C, """            allow_negative_pixels, print_inputs);

        image = transpose(image);""", """            allow_negative_pixels, print_inputs);

        image = transpose(turned);"""))
ref("remove-while",
    (C, "    for (int iteration = 1; iteration <= n_iterations; iteration++) {\n        print_v(1, \"Iter %d: \", iteration);",
     "    int iteration = 0;\n    while (iteration < n_iterations) {\n        iteration++;\n        print_v(1, \"Iter %d: \", iteration);"))
ref("remove-rowwise",
    (C, "        image_remove_cti += image_in - image_add_cti;\n", """        for (int i_row = 0; i_row < n_rows; i_row++) {
            image_remove_cti[i_row] += image_in[i_row] - image_add_cti[i_row];
        }
"""))
ref("remove-clamp-loops",
    (C, "                image_remove_cti[row_index][image_remove_cti[row_index] < 0.0] = 0.0;\n", """                std::valarray<double>& row = image_remove_cti[row_index];
                for (size_t i_column = 0; i_column < row.size(); i_column++) {
                    if (row[i_column] < 0.0) row[i_column] = 0.0;
                }
"""))
ref("remove-helper",
    (C, "std::valarray<std::valarray<double> > remove_cti(\n", """static void no_negative_pixels(std::valarray<std::valarray<double> >& image) {
    for (size_t row = 0; row < image.size(); row++) image[row][image[row] < 0.0] = 0.0;
}

std::valarray<std::valarray<double> > remove_cti(
"""),
    (C, """            for (int row_index = 0; row_index < n_rows; row_index++) {
                image_remove_cti[row_index][image_remove_cti[row_index] < 0.0] = 0.0;
            }
""", "            no_negative_pixels(image_remove_cti);\n"))
# ---- utilities
ref("transpose-swapped",
    (U, """    for (int i_row = 0; i_row < n_rows; i_row++) {
        for (int i_col = 0; i_col < n_columns; i_col++) {
            array_T[i_col][i_row] = array[i_row][i_col];
        }
    }
""", """    for (int i_col = 0; i_col < n_columns; i_col++) {
        std::valarray<double>& row_T = array_T[i_col];
        for (int i_row = 0; i_row < n_rows; i_row++) row_T[i_row] = array[i_row][i_col];
    }
"""))
# ---- trap managers
ref("tm-store-loop",
    (TM, """    stored_n_active_watermarks = n_active_watermarks;
    stored_i_first_active_wmk = i_first_active_wmk;
    stored_watermark_volumes = watermark_volumes;
    stored_watermark_fills = watermark_fills;
""", """    stored_watermark_fills = watermark_fills;
    stored_watermark_volumes = watermark_volumes;
    stored_i_first_active_wmk = i_first_active_wmk;
    stored_n_active_watermarks = n_active_watermarks;
"""))
ref("tm-reset-loop",
    (TM, """    watermark_volumes = zeroth_watermark;
    watermark_fills = empty_watermark;
}

/*
    Store""", """    for (size_t i = 0; i < watermark_volumes.size(); i++) watermark_volumes[i] = zeroth_watermark;
    for (size_t i = 0; i < watermark_fills.size(); i++) watermark_fills[i] = empty_watermark;
}

/*
    Store"""))
ref("tm-electrons-loop",
    (TM, """    std::valarray<double> fill_fractions_in_this_wmk =
        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)];
    // Multiplied by volume
    double n_trapped_electrons_in_this_wmk = 
        fill_fractions_in_this_wmk.sum() * watermark_volumes[i_wmk];

    return n_trapped_electrons_in_this_wmk;
""", """    double fill = 0.0;
    for (int i_trap = 0; i_trap < n_traps; i_trap++)
        fill += watermark_fills[i_wmk * n_traps + i_trap];
    return fill * watermark_volumes[i_wmk];
"""))
ref("tm-prune-locals",
    (TM, """                double delta_volume_above = watermark_volumes[i_wmk_prime] - delta_volume_below;
                watermark_volumes[i_wmk_prime + 1] += delta_volume_above;
""", """                double& volume_above = watermark_volumes[i_wmk_prime + 1];
                double delta_volume_above = watermark_volumes[i_wmk_prime] - delta_volume_below;
                volume_above += delta_volume_above;
"""))
ref("tm-index-above",
    (TM, """    for (int i_wmk = i_first_active_wmk;
         i_wmk < i_first_active_wmk + n_active_watermarks; i_wmk++) {
        // Total volume so far
        cumulative_volume += watermark_volumes[i_wmk];

        if (cumulative_volume > cloud_fractional_volume) return i_wmk;
    }

    // Cloud volume above all watermarks
    return i_first_active_wmk + n_active_watermarks;
""", """    const int i_end = i_first_active_wmk + n_active_watermarks;
    int i_wmk = i_first_active_wmk;
    for (; i_wmk < i_end; ++i_wmk) {
        cumulative_volume += watermark_volumes[i_wmk];
        if (cloud_fractional_volume < cumulative_volume) break;
    }
    return i_wmk;
"""))
ref("tm-empty-prob",
    (TM, """    empty_probabilities_from_release = std::valarray<double>(0.0, n_traps);

    // Set probabilities for each trap species
    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
        // Resulting empty fraction from release
        empty_probabilities_from_release[i_trap] =
            1.0 - exp(-traps[i_trap].release_rate * dwell_time);
    }
}

/*
    Call any necessary initialisation functions, etc.
*/
void TrapManagerInstantCapture::setup() {""", """    std::valarray<double> p(0.0, n_traps);
    for (int i_trap = 0; i_trap < n_traps; i_trap++) {
        const double n_timescales = dwell_time * traps[i_trap].release_rate;
        p[i_trap] = 1.0 - exp(-n_timescales);
    }
    empty_probabilities_from_release = p;
}

/*
    Call any necessary initialisation functions, etc.
*/
void TrapManagerInstantCapture::setup() {"""))
ref("tm-release-hoist",
    (TM, """            // Fraction of released electrons
            frac_released = watermark_fills[i_wmk * n_traps + i_trap] *
                            empty_probabilities_from_release[i_trap];

            // Account for non-uniform distribution with volume
            if (traps""", """            const int i_fill = n_traps * i_wmk + i_trap;
            frac_released = empty_probabilities_from_release[i_trap] * watermark_fills[i_fill];

            // Account for non-uniform distribution with volume
            if (traps"""))
ref("tm-ic-capture-slices",
    (TM, """                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
                        watermark_fills[i_wmk * n_traps + i_trap];
                }
""", """                std::valarray<double> fills = watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)];
                watermark_fills[std::slice((i_wmk + 1) * n_traps, n_traps, 1)] = fills;
""", 0))
# ---- readout, CCD
ref("ccd-early",
    ("src/ccd.cpp", """    else
        //return sgn(frac) * pow( abs(frac), well_fill_power );
        //return pow( clamp(frac, 0.0, 1.0), well_fill_power);
        return first_electron_fill + (1 - first_electron_fill) * pow( 
            clamp( (n_electrons - well_notch_depth) / 
                   (full_well_depth - well_notch_depth), 0.0, 1.0), 
            well_fill_power);
""", """    const double depth = full_well_depth - well_notch_depth;
    const double level = clamp((n_electrons - well_notch_depth) / depth, 0.0, 1.0);
    return (1 - first_electron_fill) * pow(level, well_fill_power) + first_electron_fill;
"""))
ref("roe-express-names",
    ("src/roe.cpp", """    double max_multiplier = (double) n_transfers / express;
    if (use_integer_express_matrix) max_multiplier = ceil(max_multiplier);
""", """    const double mean_multiplier = (double) n_transfers / express;
    const double max_multiplier =
        use_integer_express_matrix ? ceil(mean_multiplier) : mean_multiplier;
"""))
# ---- C interface
ref("itf-copy-helper",
    (I, "void add_cti(", """static std::valarray<std::valarray<double> > to_image(double* data, int n_rows, int n_columns) {
    std::valarray<std::valarray<double> > out(std::valarray<double>(0.0, n_columns), n_rows);
    for (int i = 0; i < n_rows * n_columns; i++) out[i / n_columns][i % n_columns] = data[i];
    return out;
}

void add_cti(""", 0),
    (I, """    std::valarray<std::valarray<double> > image_in(
        std::valarray<double>(0.0, n_columns), n_rows);
    for (int i_row = 0; i_row < n_rows; i_row++) {
        for (int i_col = 0; i_col < n_columns; i_col++) {
            image_in[i_row][i_col] = image[i_row * n_columns + i_col];
        }
    }
""", """    std::valarray<std::valarray<double> > image_in = to_image(image, n_rows, n_columns);
""", 0))
ref("itf-dwell-helper",
    (I, "void add_cti(", """static std::valarray<double> to_array(double* data, int n) {
    return std::valarray<double>(data, n);
}

void add_cti(""", 0),
    (I, """    std::valarray<double> parallel_dwell_times(0.0, parallel_n_steps);
    for (int i_step = 0; i_step < parallel_n_steps; i_step++) {
        parallel_dwell_times[i_step] = parallel_dwell_times_in[i_step];
    }
""", """    std::valarray<double> parallel_dwell_times = to_array(parallel_dwell_times_in, parallel_n_steps);
"""))
ref("itf-roe-helper",
    (I, "void add_cti(", """static ROE* make_roe(
    int type, std::valarray<double>& dwell_times, int prescan_offset, int overscan_start,
    bool empty_between, bool empty_first, bool force_away, bool integer_express, int n_pumps) {
    if (type == 0)
        return new ROE(
            dwell_times, prescan_offset, overscan_start, empty_between, empty_first,
            force_away, integer_express);
    if (type == 1)
        return new ROEChargeInjection(
            dwell_times, prescan_offset, overscan_start, empty_between, force_away,
            integer_express);
    return new ROETrapPumping(dwell_times, n_pumps, empty_first, integer_express);
}

void add_cti(""", 0),
    (I, """    ROE* p_serial_roe = NULL;
    if (serial_roe_type == 0) {
        p_serial_roe = new ROE(
            serial_dwell_times, 
            serial_prescan_offset,
            serial_overscan_start,
            serial_empty_traps_between_columns,
            serial_empty_traps_for_first_transfers,
            serial_force_release_away_from_readout, 
            serial_use_integer_express_matrix);
    } else if (serial_roe_type == 1) {
        p_serial_roe = new ROEChargeInjection(
            serial_dwell_times, 
            serial_prescan_offset,
            serial_overscan_start,
            serial_empty_traps_between_columns,
            serial_force_release_away_from_readout, 
            serial_use_integer_express_matrix);
    } else {
        p_serial_roe = new ROETrapPumping(
            serial_dwell_times, 
            serial_n_pumps, 
            serial_empty_traps_for_first_transfers,
            serial_use_integer_express_matrix);
    }
""", """    ROE* p_serial_roe = make_roe(
        serial_roe_type, serial_dwell_times, serial_prescan_offset, serial_overscan_start,
        serial_empty_traps_between_columns, serial_empty_traps_for_first_transfers,
        serial_force_release_away_from_readout, serial_use_integer_express_matrix,
        serial_n_pumps);
"""))
ref("itf-trap-loop",
    (I, """    for (int i_trap = n_traps_parallel; i_trap < n_traps_parallel + parallel_n_traps_sc;
         i_trap++) {
        parallel_traps_sc[i_trap - n_traps_parallel] = TrapSlowCapture(
            parallel_trap_densities[i_trap], parallel_trap_release_timescales[i_trap],
            parallel_trap_third_params[i_trap]);
    }
""", """    for (int i = 0; i < parallel_n_traps_sc; i++) {
        const int i_trap = parallel_n_traps_ic + i;
        parallel_traps_sc[i] = TrapSlowCapture(
            parallel_trap_densities[i_trap], parallel_trap_release_timescales[i_trap],
            parallel_trap_third_params[i_trap]);
    }
"""))
# ---- Python
ref("py-species-loop",
    (P, """    traps_ic = [trap for trap in traps if type(trap) == TrapInstantCapture]
    traps_sc = [trap for trap in traps if type(trap) == TrapSlowCapture]
    traps_ic_co = [trap for trap in traps if type(trap) == TrapInstantCaptureContinuum]
    traps_sc_co = [trap for trap in traps if type(trap) == TrapSlowCaptureContinuum]
""", """    traps_ic, traps_sc, traps_ic_co, traps_sc_co = (
        [trap for trap in traps if type(trap) == species]
        for species in (
            TrapInstantCapture,
            TrapSlowCapture,
            TrapInstantCaptureContinuum,
            TrapSlowCaptureContinuum,
        )
    )
"""))
ref("py-helper-of-species",
    (P, "def _extract_trap_parameters(traps):", """def _of_type(traps, species):
    return [trap for trap in traps if type(trap) is species]


def _extract_trap_parameters(traps):"""),
    (P, """    traps_ic = [trap for trap in traps if type(trap) == TrapInstantCapture]
    traps_sc = [trap for trap in traps if type(trap) == TrapSlowCapture]
    traps_ic_co = [trap for trap in traps if type(trap) == TrapInstantCaptureContinuum]
    traps_sc_co = [trap for trap in traps if type(trap) == TrapSlowCaptureContinuum]
""", """    traps_ic = _of_type(traps, TrapInstantCapture)
    traps_sc = _of_type(traps, TrapSlowCapture)
    traps_ic_co = _of_type(traps, TrapInstantCaptureContinuum)
    traps_sc_co = _of_type(traps, TrapSlowCaptureContinuum)
"""))
ref("py-third-param-helper",
    (P, "def _extract_trap_parameters(traps):", """def _third_param(trap):
    if type(trap) == TrapInstantCapture:
        return trap.fractional_volume_none_exposed
    if type(trap) == TrapSlowCapture:
        return trap.capture_timescale
    return trap.release_timescale_sigma


def _extract_trap_parameters(traps):"""),
    (P, """    trap_third_params = []
    for trap in traps:
        if type(trap) == TrapInstantCapture:
            trap_third_params.append(trap.fractional_volume_none_exposed)
        elif type(trap) == TrapSlowCapture:
            trap_third_params.append(trap.capture_timescale)
        elif type(trap) == TrapInstantCaptureContinuum:
            trap_third_params.append(trap.release_timescale_sigma)
        elif type(trap) == TrapSlowCaptureContinuum:
            trap_third_params.append(trap.release_timescale_sigma)
    trap_third_params = np.array(trap_third_params, dtype=np.double)
""", """    trap_third_params = np.array([_third_param(trap) for trap in traps], dtype=np.double)
"""))
ref("py-isinstance-loop",
    (P, """    traps_ic = [trap for trap in traps if type(trap) == TrapInstantCapture]
""", """    traps_ic = []
    for trap in traps:
        if type(trap) == TrapInstantCapture:
            traps_ic.append(trap)
"""))
ref("py-dummies-first",
    (P, """    n_traps_ic = len(traps_ic)
    n_traps_sc = len(traps_sc)
    n_traps_ic_co = len(traps_ic_co)
    n_traps_sc_co = len(traps_sc_co)
    if n_traps_sc""", """    n_traps_ic, n_traps_sc, n_traps_ic_co, n_traps_sc_co = [
        len(x) for x in (traps_ic, traps_sc, traps_ic_co, traps_sc_co)
    ]
    if n_traps_sc"""))

# ---- resources
ref("open-helper",
    ("src/util.cpp", "    FILE* f = fopen(filename, \"w\");\n    if (!f) error(\"Failed to open file '%s'\", filename);\n", "    FILE* f = open_or_die(filename, \"w\");\n"),
    ("src/util.cpp", "std::valarray<std::valarray<double> > load_image_from_txt(", """static FILE* open_or_die(const char* filename, const char* mode) {
    FILE* file = fopen(filename, mode);
    if (file == NULL) error("Failed to open file '%s'", filename);
    return file;
}

std::valarray<std::valarray<double> > load_image_from_txt("""))
ref("read-noise-vector",
    ("src/read_noise.cpp", "  double* dval9 = (double*)malloc(rows * cols * sizeof(double));\n", "  std::vector<double> dvec(rows * cols);\n  double* dval9 = dvec.data();\n"),
    ("src/read_noise.cpp", "    free(dval9);\n", ""), ("src/read_noise.cpp", "#include <iostream>", "#include <iostream>\n#include <vector>"))
ref("roe-null-checks",
    (I, "    delete p_parallel_roe;\n    delete p_serial_roe;\n", "    ROE* both[2] = {p_serial_roe, p_parallel_roe};\n    for (int k = 0; k < 2; k++) delete both[k];\n"))

# ---- statuses
ref("status-helper",
    ("src/traps.cpp", "    if (status) error(\"Integration failed, status %d\", status);\n", "    check_status(status);\n", 1),
    ("src/traps.cpp", "struct TrICCo_ff_from_te_params {", """static void check_status(int s) {
    if (s != GSL_SUCCESS) error("GSL failed, status %d", s);
}
struct TrICCo_ff_from_te_params {"""))
ref("read-pixel-helper",
    ("src/util.cpp", "            c = fscanf(f, \"%lf\", &image[i_row][i_col]);\n            if (c != 1)\n", "            bool ok = read_pixel(f, image[i_row][i_col]);\n            if (!ok)\n"),
    ("src/util.cpp", "std::valarray<std::valarray<double> > load_image_from_txt(", """static bool read_pixel(FILE* f, double& x) {
    int n = fscanf(f, "%lf", &x);
    if (n == 1) return true;
    return false;
}
std::valarray<std::valarray<double> > load_image_from_txt("""))
ref("close-helper",
    ("src/util.cpp", "    int failed = ferror(f);\n    failed |= fclose(f);\n    if (failed) error(\"Failed to write image file '%s'\", filename);\n", "    close_or_die(f, filename);\n"),
    ("src/util.cpp", "std::valarray<std::valarray<double> > load_image_from_txt(", """static void close_or_die(FILE* g, const char* n) {
    int failed = ferror(g);
    failed |= fclose(g);
    if (failed) error("Failed to write '%s'", n);
}
std::valarray<std::valarray<double> > load_image_from_txt("""))

# ---- image edges
ref("edge-unsigned",
    (C, "    int row_read;\n", "    unsigned int row_read;\n"),
    (C, "if ((row_read < 0) || (row_read >= (int)n_rows)) continue;", "if (row_read >= n_rows) continue;"))
ref("edge-nested",
    (C, "if ((row_read < 0) || (row_read >= (int)n_rows)) continue;", "if (row_read >= 0 && row_read < (int)image.size())"))

# ---- command line
ref("cli-mode-helper",
    ("src/main.cpp", "                demo_mode = true;\n                break;", "                set_mode(demo_mode);\n                break;"),
    ("src/main.cpp", "void parse_parameters", "static void set_mode(bool& m) { m = true; }\nvoid parse_parameters"))
ref("cli-loop",
    ("src/main.cpp", "    while (true) {\n        const auto opt = getopt_long(argc, argv, short_opts, long_opts, nullptr);\n\n        if (opt == -1) break;\n",
     "    int opt;\n    while ((opt = getopt_long(argc, argv, short_opts, long_opts, nullptr)) != -1) {\n"))
ref("cli-bits",
    ("src/main.cpp", "                demo_mode = true;\n", "                mode = 1;\n"), ("src/main.cpp", "                benchmark_mode = true;\n", "                mode |= 2;\n"),
    ("src/main.cpp", "static bool demo_mode = false;\nstatic bool benchmark_mode = false;", "static int mode = 0;"), ("src/main.cpp", "if (demo_mode)", "if (mode & 1)"),
    ("src/main.cpp", "if (benchmark_mode)", "if (mode & 2)"))
ref("cli-status",
    ("src/main.cpp", "void parse_parameters(", "int parse_parameters("), ("src/main.cpp", "                print_help();\n                exit(0);", "                print_help();\n                return 0;"),
    ("src/main.cpp", "argv[optind]);\n    }\n}", "argv[optind]);\n    }\n    return -1;\n}"),
    ("src/main.cpp", "    parse_parameters(argc, argv);", "    int status = parse_parameters(argc, argv);\n    if (status >= 0) return status;"))

# ---- Python package
PB, CC, RO, RNP, VVP = ("python/arcticpy/%s.py" % x for x in ("pixel_bounce", "ccd", "roe", "read_noise", "vv_test"))
ref("py-volume-helper",
    (CC, "class CCDPhase:", "def _clipped(x):\n    return np.clip(x, 0, 1)\n\n\nclass CCDPhase:"),
    (CC, "            * np.clip((n_e - self.well_notch_depth) / well_range ,\n            0, 1) ** self.well_fill_power", "            * _clipped((n_e - self.well_notch_depth) / well_range) ** self.well_fill_power"))
ref("py-bounce-sum",
    (PB, """    for pixel_bounce in pixel_bounce_list:
        bias += pixel_bounce.perturb_bias(
            image,
            parallel_window_start=parallel_window_start,
            parallel_window_stop=parallel_window_stop,
            serial_window_start=serial_window_start,
            serial_window_stop=serial_window_stop,
            verbosity=verbosity,
        )
""", """    window = dict(
        parallel_window_start=parallel_window_start,
        parallel_window_stop=parallel_window_stop,
        serial_window_start=serial_window_start,
        serial_window_stop=serial_window_stop,
    )
    for source in pixel_bounce_list:
        bias += source.perturb_bias(image, verbosity=verbosity, **window)
"""))
ref("py-abstract-density",
    (RO, "    def from_normal_roe(roe, n_pixels_in_image):", "    @staticmethod\n    def from_normal_roe(roe, n_pixels_in_image):"))
ref("py-vv-results",
    (VVP, "        result = VVResult(vv_parallel,vv_serial)\n        self.results.append(result)\n        \n        return result", "        self.results.append(VVResult(vv_parallel, vv_serial))\n        return self.results[-1]"))
ref("py-vv-roe-helper",
    (VVP, "            x_min = x_roe.prescan_length\n            if x_roe.overscan_start >= 0:\n                x_max = x_roe.overscan_start\n", "            x_min, x_max = _usable(x_roe, x_max)\n"),
    (VVP, "class VVResult(object):", "def _usable(roe, stop):\n    if roe.overscan_start >= 0:\n        stop = roe.overscan_start\n    return roe.prescan_length, stop\n\n\nclass VVResult(object):"))
ref("py-cov-local",
    (RNP, "        middle = self.middle\n        subarray = self[max(middle[0]-n,0):min(middle[0]+n,self.shape[0]),\n                        max(middle[1]-n,0):min(middle[1]+n,self.shape[1])]\n        return subarray.sum() - self.autocorrelation",
     "        return self._near(n).sum() - self.autocorrelation\n\n    def _near(self, n):\n        m0, m1 = self.middle\n        return self[max(m0 - n, 0):min(m0 + n, self.shape[0]), max(m1 - n, 0):min(m1 + n, self.shape[1])]"))
# ---- read noise
RN = "src/read_noise.cpp"
ref("noise-mean-local",
    (RN, """            idx = i * cols + j;
	    dval9[idx] += dval0[idx + cols + 1];  // comparison with bottom-left neighbour
	    dval9[idx] += dval0[idx + cols];  // comparison with bottom-central neighbour
	    dval9[idx] += dval0[idx + cols - 1];  // comparison with bottom-right neighbour
	    dval9[idx] += dval0[idx + 1];  // comparison with middle-left neighbour
	    dval9[idx] += dval0[idx - 1];  // comparison with middle-right neighbour
	    dval9[idx] += dval0[idx - cols + 1];  // comparison with top-left neighbour
	    dval9[idx] += dval0[idx - cols];  // comparison with top-central neighbour
	    dval9[idx] += dval0[idx - cols - 1];  // comparison with top-right neighbour
            dval9[idx] /= 9;
""", """            idx = i * cols + j;
            double sum = 0;
            for (int di = -1; di <= 1; di++)
                for (int dj = -1; dj <= 1; dj++)
                    sum += dval0[idx + di * cols + dj];
            dval9[idx] = sum / 9;
"""))
ref("noise-corner-expression",
    (RN, """    dval9[0] += dval0[cols + 1];  // comparison with bottom-left neighbour
    dval9[0] += dval0[cols];  // comparison with bottom-central neighbour
    dval9[0] += dval0[1];  // comparison with middle-left neighbour
    dval9[0] /= 4.0;
""", """    dval9[0] = (dval0[0] + dval0[1] + dval0[cols] + dval0[cols + 1]) * 0.25;
"""))
ref("noise-edge-helper",
    (RN, "void determine_read_noise_model(", """static void add_neighbour_column(double* mean, const double* d, int idx, int cols, int step) {
    mean[idx] += d[idx + cols + step];
    mean[idx] += d[idx + step];
    mean[idx] += d[idx - cols + step];
}

void determine_read_noise_model("""),
    (RN, """      dval9[idx] += dval0[idx + cols + 1];  // comparison with bottom-left neighbour
      dval9[idx] += dval0[idx + cols];  // comparison with bottom-central neighbour
      dval9[idx] += dval0[idx + 1];  // comparison with middle-left neighbour
      dval9[idx] += dval0[idx - cols + 1];  // comparison with top-left neighbour
      dval9[idx] += dval0[idx - cols];  // comparison with top-central neighbour
      dval9[idx] /= 6.0;
""", """      add_neighbour_column(dval9, dval0, idx, cols, 1);
      dval9[idx] += dval0[idx + cols];
      dval9[idx] += dval0[idx - cols];
      dval9[idx] /= 6.0;
"""))
ref("noise-difference-guard",
    (RN, """      double dmod1, dmod2;
      if (i < cols) {  // first row
	dmod1 = 0.0;
      } else {
	dmod1 = imageOut[i - cols] - imageOut[i];
      }	  
""", """      double dmod1 = 0.0, dmod2;
      int rrow = i / cols;
      if (rrow > 0) dmod1 = imageOut[(rrow - 1) * cols + rcol] - imageOut[i];
"""),
    (RN, "if (i >= (rows - 1) * cols) {  // last row", "if (!(i + cols < rows * cols)) {  // last row"))
ref("noise-rows-cols-swapped",
    (RN, """    for (int i = 0; i < rows * cols; i++) {
        dval0[i] = imageIn[i] - imageOut[i];
        dval9[i] = dval0[i];
    }    
""", """    for (int r = 0; r < rows; r++)
        for (int c = 0; c < cols; c++) {
            int k = r * cols + c;
            dval0[k] = imageIn[k] - imageOut[k];
        }
    for (int k = 0; k < rows * cols; k++) dval9[k] = dval0[k];
"""))
ref("py-noise-sign",
    (RNP, """            if (ampReadNoise - rmsGlobal) > 0:
                imageOut += imageAdj * self.outScale / smoother
                noiseImage = imageIn - imageOut
            else:
                imageOut -= imageAdj * self.outScale / smoother
                noiseImage = imageIn - imageOut
""", """            step = self.outScale / smoother
            if ampReadNoise <= rmsGlobal:
                step = -step
            imageOut = imageOut + imageAdj * step
            noiseImage = imageIn - imageOut
"""))
ref("py-noise-fraction",
    (RNP, """            imageOut += noiseImage
            noiseImage *= sr_fraction
            imageOut -= noiseImage
""", """            noiseImage = noiseImage * sr_fraction
            imageOut = imageIn - noiseImage
"""))
ref("py-noise-update-helper",
    (RNP, "    def generate_SR_frames_from_image(self, image, sr_fraction=None, verbosity=1):", """    def _step(self, imageIn, imageOut, imageAdj, size):
        imageOut = imageOut + imageAdj * size
        return imageOut, imageIn - imageOut

    def generate_SR_frames_from_image(self, image, sr_fraction=None, verbosity=1):"""),
    (RNP, """                imageOut += imageAdj * self.outScale / smoother
                noiseImage = imageIn - imageOut
""", """                imageOut, noiseImage = self._step(imageIn, imageOut, imageAdj, self.outScale / smoother)
"""),
    (RNP, """                imageOut -= imageAdj * self.outScale / smoother
                noiseImage = imageIn - imageOut
""", """                imageOut, noiseImage = self._step(imageIn, imageOut, imageAdj, -self.outScale / smoother)
"""))
# ---- layouts
ref("transpose-column-outer",
    (U, """    for (int i_row = 0; i_row < n_rows; i_row++) {
        for (int i_col = 0; i_col < n_columns; i_col++) {
            array_T[i_col][i_row] = array[i_row][i_col];
        }
    }
""", """    for (int to = 0; to < (int)array_T.size(); to++) {
        for (int from = 0; from < (int)array_T[to].size(); from++) {
            array_T[to][from] = array[from][to];
        }
    }
"""))
ref("flatten-reserve",
    (U, """    for (int i_row = 0; i_row < n_row; i_row++) {
        n_col = array[i_row].size();

        for (int i_col = 0; i_col < n_col; i_col++) {
            vector.push_back(array[i_row][i_col]);
        }
    }
""", """    n_col = n_row ? array[0].size() : 0;
    vector.reserve(n_row * n_col);
    for (auto& row : array)
        for (double pixel : row) vector.push_back(pixel);
"""))
ref("load-text-local",
    (U, """            c = fscanf(f, "%lf", &image[i_row][i_col]);
            if (c != 1)
                error("Failed to read image [%d, %d] '%s'", i_row, i_col, filename);
""", """            double pixel;
            if (fscanf(f, "%lf", &pixel) != 1)
                error("Failed to read image [%d, %d] '%s'", i_row, i_col, filename);
            image[i_row][i_col] = pixel;
"""))
ref("save-text-flat",
    (U, """    for (int i_row = 0; i_row < n_rows; i_row++) {
        for (int i_col = 0; i_col < n_columns; i_col++) {
            fprintf(f, "%lf ", image[i_row][i_col]);
        }
        fprintf(f, "\\n");
    }

    // Make""", """    for (int i = 0; i < n_rows * n_columns; i++) {
        fprintf(f, "%lf ", image[i / n_columns][i % n_columns]);
        if (i % n_columns == n_columns - 1) fprintf(f, "\\n");
    }

    // Make"""))
ref("interface-flat-copy",
    (I, """    for (int i_row = 0; i_row < n_rows; i_row++) {
        for (int i_col = 0; i_col < n_columns; i_col++) {
            image_in[i_row][i_col] = image[i_row * n_columns + i_col];
        }
    }
""", """    int n_pixels = n_rows * n_columns;
    for (int i = 0; i < n_pixels; i++) image_in[i / n_columns][i % n_columns] = image[i];
"""),
    (I, """    for (int i_row = 0; i_row < n_rows; i_row++) {
        for (int i_col = 0; i_col < n_columns; i_col++) {
            image[i_row * n_columns + i_col] = image_out[i_row][i_col];
        }
    }
""", """    double* pixel = image;
    for (int i_row = 0; i_row < n_rows; i_row++)
        for (int i_col = 0; i_col < n_columns; i_col++) *pixel++ = image_out[i_row][i_col];
"""))
ref("interface-copy-helpers",
    (I, """    for (int i_row = 0; i_row < n_rows; i_row++) {
        for (int i_col = 0; i_col < n_columns; i_col++) {
            image_in[i_row][i_col] = image[i_row * n_columns + i_col];
        }
    }
""", """    image_from_buffer(image, image_in);
"""),
    (I, """/*
    Wrapper for arctic's add_cti() in src/cti.cpp.
""", """static void image_from_buffer(const double* buffer, std::valarray<std::valarray<double> >& image) {
    int n_columns = image[0].size();
    for (size_t r = 0; r < image.size(); r++)
        for (int c = 0; c < n_columns; c++) image[r][c] = buffer[n_columns * r + c];
}

/*
    Wrapper for arctic's add_cti() in src/cti.cpp.
"""))
ref("interface-row-pointers",
    (I, """            image_in[i_row][i_col] = image[i_row * n_columns + i_col];
        }
    }
""", """            const double* row = image + i_row * n_columns;
            image_in[i_row][i_col] = row[i_col];
        }
    }
"""))

# ---- arrays handed to C++
ref("py-image-array",
    ("python/arcticpy/wrapper.pyx", """    if not array.flags['C_CONTIGUOUS']:
        return np.ascontiguousarray(array)
    else:
        return array
""", """    return np.ascontiguousarray(array)
"""))
ref("py-contiguous-require",
    ("python/arcticpy/wrapper.pyx", """    if not array.flags['C_CONTIGUOUS']:
        return np.ascontiguousarray(array)
    else:
        return array
""", """    if array.flags.c_contiguous:
        return array
    return np.require(array, requirements=["C"])
"""))
ref("py-ccd-helper",
    ("python/arcticpy/ccd.py", """        self.full_well_depths = np.array(
            [phase.full_well_depth for phase in self.phases], dtype=np.double
        )
""", """        self.full_well_depths = _values("full_well_depth", self.phases)
"""),
    ("python/arcticpy/ccd.py", """class CCD(object):
""", """def _values(name, phases):
    return np.array([getattr(phase, name) for phase in phases], dtype=np.double)


class CCD(object):
"""))
ref("py-ccd-raise-value",
    ("python/arcticpy/ccd.py", """        if self.fraction_of_traps_per_phase.size != len(self.phases):
""", """        n_phases = len(self.phases)
        n_fractions = len(self.fraction_of_traps_per_phase)
        if not (n_fractions == n_phases):
"""))
ref("py-fourth-comprehension",
    ("python/arcticpy/cti.py", """    trap_fourth_params = []
    for trap in traps:
        if type(trap) == TrapInstantCapture:
            trap_fourth_params.append(trap.fractional_volume_full_exposed)
        elif type(trap) == TrapSlowCapture:
            trap_fourth_params.append(0.0)
        elif type(trap) == TrapInstantCaptureContinuum:
            trap_fourth_params.append(0.0)
        elif type(trap) == TrapSlowCaptureContinuum:
            trap_fourth_params.append(trap.capture_timescale)
""", """    trap_fourth_params = (
        [trap.fractional_volume_full_exposed for trap in traps_ic]
        + [0.0] * n_traps_sc
        + [0.0 for trap in traps_ic_co]
        + [trap.capture_timescale for trap in traps_sc_co]
    )
"""))
ref("py-fourth-isinstance",
    ("python/arcticpy/cti.py", """    for trap in traps:
        if type(trap) == TrapInstantCapture:
            trap_fourth_params.append(trap.fractional_volume_full_exposed)
        elif type(trap) == TrapSlowCapture:
            trap_fourth_params.append(0.0)
        elif type(trap) == TrapInstantCaptureContinuum:
            trap_fourth_params.append(0.0)
        elif type(trap) == TrapSlowCaptureContinuum:
            trap_fourth_params.append(trap.capture_timescale)
""", """    for trap in traps:
        value = 0.0
        if isinstance(trap, TrapInstantCapture):
            value = trap.fractional_volume_full_exposed
        if isinstance(trap, TrapSlowCaptureContinuum):
            value = trap.capture_timescale
        trap_fourth_params.append(value)
"""))
ref("py-roe-asarray-copy",
    ("python/arcticpy/roe.py", "self.dwell_times = np.array(dwell_times, dtype=np.double)", "dwell_times = np.asarray(dwell_times)\n        self.dwell_times = dwell_times.astype(np.float64)"))
ref("py-bounce-array",
    ("python/arcticpy/pixel_bounce.py", """        image = np.asarray(image, dtype=np.double)
""", """        image = np.array(image, dtype=float)
"""))
# ---- clocking tables
RO = "src/roe.cpp"
ref("roe-trim-loops",
    (RO, """        for (int express_index = 0; express_index < n_express_passes; express_index++) {
            express_matrix_trim[std::slice(express_index * n_rows, n_rows, 1)] =
                express_matrix[std::slice(
                    express_index * n_transfers + offset, n_rows, 1)];
        }
""", """        for (int i_pass = 0; i_pass < n_express_passes; ++i_pass) {
            for (int i_row = 0; i_row < n_rows; ++i_row) {
                const int from = i_pass * n_transfers + offset + i_row;
                express_matrix_trim[n_rows * i_pass + i_row] = express_matrix[from];
            }
        }
"""))
ref("roe-trim-helper",
    (RO, "void ROE::set_express_matrix_from_rows_and_express(", """static std::valarray<double> without_offset(
    const std::valarray<double>& matrix, int n_passes, int n_transfers, int offset,
    int n_rows) {
    std::valarray<double> trimmed(0.0, n_passes * n_rows);
    for (int i = 0; i < n_passes; i++)
        trimmed[std::slice(i * n_rows, n_rows, 1)] =
            matrix[std::slice(i * n_transfers + offset, n_rows, 1)];
    return trimmed;
}

void ROE::set_express_matrix_from_rows_and_express("""),
    (RO, """        std::valarray<double> express_matrix_trim(0.0, n_express_passes * n_rows);

        // Copy the post-offset slices of each row
        for (int express_index = 0; express_index < n_express_passes; express_index++) {
            express_matrix_trim[std::slice(express_index * n_rows, n_rows, 1)] =
                express_matrix[std::slice(
                    express_index * n_transfers + offset, n_rows, 1)];
        }
        //print_array_2D(express_matrix_trim, n_rows);
        express_matrix = express_matrix_trim;
""", """        express_matrix =
            without_offset(express_matrix, n_express_passes, n_transfers, offset, n_rows);
"""))
ref("roe-store-while",
    (RO, """        for (row_index = 0; row_index < n_transfers - 1; row_index++) {
            if (express_matrix[(express_index + 1) * n_transfers + row_index + 1] > 0.0)
                break;
        }
""", """        row_index = 0;
        while (row_index < n_transfers - 1 &&
               !(express_matrix[(express_index + 1) * n_transfers + row_index + 1] > 0.0))
            row_index++;
"""))
ref("roe-pump-elements",
    (RO, """        express_matrix[std::slice(row_index, n_express_passes, n_rows)] = tmp_col;
""", """        for (int i_pass = 0; i_pass < n_express_passes; i_pass++)
            express_matrix[i_pass * n_rows + row_index] = tmp_col[i_pass];
"""))
ref("roe-ramp-loop",
    (RO, """    for (int express_index = 0; express_index < express; express_index++)
        tmp_express_matrix[std::slice(express_index * n_transfers, n_transfers, 1)] =
            arange(1, n_transfers + 1);   
""", """    for (int express_index = 0; express_index < express; express_index++)
        for (int j = 0; j < n_transfers; j++)
            tmp_express_matrix[express_index * n_transfers + j] = j + 1;
"""))
ref("cti-table-alias",
    (C, """    for (unsigned int i_column = 0; i_column < n_active_columns; i_column++) {
        column_index = column_start + i_column;

        print_v(
""", """    const std::valarray<double>& multipliers = roe->express_matrix;
    const std::valarray<bool>& keep_states = roe->store_trap_states_matrix;
    for (unsigned int i_column = 0; i_column < n_active_columns; i_column++) {
        column_index = column_start + i_column;

        print_v(
""") if 0 else (C, """        // Monitor the traps for every transfer (express=n_rows), or just one
""", """        const std::valarray<double>& multipliers = roe->express_matrix;
        const std::valarray<bool>& keep_states = roe->store_trap_states_matrix;
        // Monitor the traps for every transfer (express=n_rows), or just one
"""),
    (C, """                express_multiplier =
                    roe->express_matrix[express_index * n_rows + row_index];
                if (express_multiplier == 0) continue;
""", """                express_multiplier = multipliers[express_index * n_rows + row_index];
                if (express_multiplier == 0) continue;
"""),
    (C, """                if (roe->store_trap_states_matrix[express_index * n_rows + row_index]) {
                    print_v(2""", """                if (keep_states[express_index * n_rows + row_index]) {
                    print_v(2"""))
Q = "src/traps.cpp"
ref("cloud-early-exits", ("src/ccd.cpp", """        return first_electron_fill + (1 - first_electron_fill) * pow( 
            clamp( (n_electrons - well_notch_depth) / 
                   (full_well_depth - well_notch_depth), 0.0, 1.0), 
            well_fill_power);""", """        {
            const double depth = full_well_depth - well_notch_depth;
            double frac = (n_electrons - well_notch_depth) / depth;
            if (frac < 0.0) frac = 0.0;
            if (frac > 1.0) frac = 1.0;
            const double volume = pow(frac, well_fill_power);
            return volume + first_electron_fill * (1.0 - volume);
        }"""))
ref("table-clamp-spelled-out", (Q, "    return clamp(fill, 0.0, 1.0);", "    if (fill < 0.0) fill = 0.0;\n    if (fill > 1.0) fill = 1.0;\n    return fill;", 0))
ref("table-difference-form", (Q, "        (1.0 - intp) * fill_fraction_table[idx] + intp * fill_fraction_table[idx + 1];", "        fill_fraction_table[idx] + intp * (fill_fraction_table[idx + 1] - fill_fraction_table[idx]);", 1))
ref("slow-probabilities-decay", ("src/trap_managers.cpp", """        exponential_factor = (1 - exp(-total_rate * dwell_time)) / total_rate;
""", """        const double decay = exp(-total_rate * dwell_time);
        exponential_factor = 1 / total_rate - decay / total_rate;
"""))
ref("density-helper", (Q, """    double n = exp(-pow(log(tau) - log(p->mu), 2.0) / (2.0 * p->sigma * p->sigma)) /
               (tau * p->sigma * sqrt(2.0 * M_PI));

    // To integrate: n(tau) * fill_frac(tau) dtau
    return n * exp(-p->time_elapsed / tau);""", """    double n = lognormal(tau, p->mu, p->sigma);

    // To integrate: n(tau) * fill_frac(tau) dtau
    double fraction = exp(-p->time_elapsed / tau);
    return fraction * n;""", 0), (Q, "struct TrICCo_ff_from_te_params {", """static double lognormal(double x, double centre, double width) {
    const double z = (log(x) - log(centre)) / width;
    return exp(-0.5 * z * z) / (x * width * sqrt(2.0 * M_PI));
}

struct TrICCo_ff_from_te_params {"""))
TM = "src/trap_managers.cpp"
_shift = """            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
                 i_wmk >= i_wmk_above_cloud; i_wmk--) {
                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
                for (int i_trap = 0; i_trap < n_traps; i_trap++) {
                    watermark_fills[(i_wmk + 1) * n_traps + i_trap] =
                        watermark_fills[i_wmk * n_traps + i_trap];
                }
            }
"""
ref("tm-shift-helper", (TM, _shift, """            shift_up(watermark_volumes, watermark_fills, n_traps, i_wmk_above_cloud,
                     i_first_active_wmk + n_active_watermarks);
""", 0), (TM, "double TrapManagerSlowCapture::n_electrons_released_and_captured(", """static void shift_up(
    std::valarray<double>& volumes, std::valarray<double>& fills, int n_traps,
    int first, int end) {
    for (int i = end; i > first; i--) {
        volumes[i] = volumes[i - 1];
        for (int t = 0; t < n_traps; t++) fills[i * n_traps + t] = fills[(i - 1) * n_traps + t];
    }
}

double TrapManagerSlowCapture::n_electrons_released_and_captured("""))
ref("tm-shift-while", (TM, _shift, """            int i_move = i_first_active_wmk + n_active_watermarks;
            while (i_move > i_wmk_above_cloud) {
                watermark_volumes[i_move] = watermark_volumes[i_move - 1];
                for (int i_trap = 0; i_trap < n_traps; i_trap++)
                    watermark_fills[i_move * n_traps + i_trap] =
                        watermark_fills[(i_move - 1) * n_traps + i_trap];
                i_move--;
            }
""", 0))
ref("tm-shift-slices", (TM, _shift, """            for (int i_wmk = i_first_active_wmk + n_active_watermarks - 1;
                 i_wmk >= i_wmk_above_cloud; i_wmk--) {
                watermark_volumes[i_wmk + 1] = watermark_volumes[i_wmk];
                std::valarray<double> moved =
                    watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)];
                watermark_fills[std::slice((i_wmk + 1) * n_traps, n_traps, 1)] = moved;
            }
""", 0))
ref("tm-end-field", (TM, """    int i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);

    // Add a new watermark at the cloud height
    if (cloud_fractional_volume > 0.0) {
        // First capture
        if (n_active_watermarks == 0) {""", """    int i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
    const int end = i_first_active_wmk + n_active_watermarks;
    const bool first_capture = end == i_first_active_wmk;

    // Add a new watermark at the cloud height
    if (cloud_fractional_volume > 0.0) {
        // First capture
        if (first_capture) {""", 0))
ref("cti-transfer-count-helper", (C, "    unsigned int max_n_transfers = n_active_rows + row_offset;\n", "    const unsigned int n_transfers_per_column = n_active_rows + row_offset;\n    unsigned int max_n_transfers = n_transfers_per_column;\n"),
    (C, "        max_n_transfers *= n_columns;\n", "        max_n_transfers = max_n_transfers * n_columns;\n"))
ref("tm-size-local", (TM, "    n_watermarks = max_n_transfers * n_watermarks_per_transfer + 1;\n", "    int size = 1 + n_watermarks_per_transfer * max_n_transfers;\n    n_watermarks = size;\n"))
