"""Gathering: windows shared by sites, and the data of those windows."""
import numpy as np
import pandas as pd

OP = ["project.get_meas_evals_path"]


# ================================================================ windows of a site (P20)
def evals_path(proj, site, meas, config_name):
    return proj.dir_path / "evals" / site / config_name / meas


@ensures("P20 P04 P19", "gather.get_site_evals_metadata", virtual=["spectra.SpectraDataReader.run"])
def site_evals_metadata(config_name, proj, site_name, fs):
    site = proj.get_site(site_name)
    out = {}
    for name in site.get_measurements(fs):
        meas = site.get_measurement(name)
        try:
            m = SpectraDataReader().run(evals_path(proj, site.name, meas.name, config_name), metadata_only=True)
        except Exception:
            continue
        out[meas.name] = m
    return out


@ensures("P20", "gather.get_site_level_wins")
def site_level_wins(meas_metadata, level):
    wins = pd.Series(dtype=str)
    for name in meas_metadata:
        m = meas_metadata[name]
        if level < m.n_levels:
            first = m.levels_metadata[level].index_offset
            wins = wins.append(pd.Series(data=name, index=np.arange(first, first + m.levels_metadata[level].n_wins)))
    return wins[~wins.index.duplicated(keep="first")].sort_index()


@ensures("P20 P29", "gather.get_site_wins", opaque=["gather.get_site_evals_metadata", "gather.get_site_level_wins"])
def site_wins(config_name, proj, site_name, fs):
    m = get_site_evals_metadata(config_name, proj, site_name, fs)
    if len(m) == 0:
        raise ValueError("")
    return {level: get_site_level_wins(m, level) for level in range(max([x.n_levels for x in m.values()]))}


# ================================================================ selection (P20)
@ensures("P20 P21", "gather.Selection.get_n_evals")
def get_n_evals(self):
    return self.n_levels * self.dec_params.per_level


@ensures("P20 P21 P16", "gather.Selection.get_n_wins")
def get_n_wins(self, level, eval_idx):
    if level >= self.n_levels:
        raise ValueError("")
    used = self.tables[level][eval_idx]
    return used[used].count()


@ensures("P20 P21", "gather.Selection.get_measurements")
def selection_measurements(self, site):
    names = set()
    for table in self.tables.values():
        names = names.union(set(table[site.name].unique()))
    return sorted(list(names))


@ensures("P20 P21", "gather.Selection.get_eval_freqs")
def selection_eval_freqs(self):
    out = []
    for level in range(self.n_levels):
        out = out + self.dec_params.get_eval_freqs(level)
    return out


@ensures("P20 P21", "gather.Selection.get_eval_wins")
def selection_eval_wins(self, level, eval_idx):
    table = self.tables[level]
    return table[table[eval_idx]][[site.name for site in self.sites]]


@ensures("P20", "gather.Selection.__init__", view="post(self).n_levels")
def selection_levels(self, sites, dec_params, tables):
    return len(tables)


@ensures("P20", "gather.Selection.__init__", view="post(self).tables")
def selection_tables(self, sites, dec_params, tables):
    return tables


@ensures("P20", "gather.Selection.__init__", view="post(self).sites")
def selection_sites(self, sites, dec_params, tables):
    return sites


def usable(dec_params, table):
    for k in range(dec_params.per_level):
        table[k] = True
    return table


@ensures("P20", "gather.Selector._get_evals")
def get_evals(self, dec_params, table, level):
    return usable(dec_params, table)


def shared_windows(self, config_name, proj, site_names, dec_params, masks):
    names = sorted(list(set(site_names)))
    wins = {x: get_site_wins(config_name, proj, x, dec_params.fs) for x in names}
    tables = {}
    for level in range(min([len(x) for x in wins.values()])):
        table = usable(dec_params, pd.DataFrame(data={x: wins[x][level] for x in names}).dropna())
        if masks is not None:
            table = self._apply_masks(table, masks)
        tables[level] = table
    return tables


SEL = ["gather.get_site_wins", "gather.Selector._apply_masks"]


@ensures("P20", "gather.Selector.run", view="ret.tables", opaque=SEL, partial=True)
def selector_tables(self, config_name, proj, site_names, dec_params, masks):
    return shared_windows(self, config_name, proj, site_names, dec_params, masks)


@ensures("P20 P19", "gather.Selector.run", view="ret.sites", opaque=SEL)
def selector_sites(self, config_name, proj, site_names, dec_params, masks):
    return [proj.get_site(x) for x in sorted(list(set(site_names)))]


@ensures("P20", "gather.Selector.run", view="ret.dec_params", opaque=SEL, partial=True)
def selector_dec_params(self, config_name, proj, site_names, dec_params, masks):
    return dec_params


# ================================================================ gathered data (P21)
def eval_key(dec_params, level, k):
    return dec_params.per_level * level + k


@ensures("P21", "gather.ProjectGather._get_empty_data", opaque=["gather.Selection.get_n_wins"])
def get_empty_data(self, selection, chans):
    out = {}
    for level in range(selection.n_levels):
        for k in range(selection.dec_params.per_level):
            out[eval_key(selection.dec_params, level, k)] = np.empty(shape=(selection.get_n_wins(level, k), len(chans)), dtype=np.complex128)
    return out


def rows(wins, site, meas, m):
    wins["combined_index"] = np.arange(len(wins))
    mine = wins[wins[site.name] == meas]
    return mine.index.values - m.index_offset, mine["combined_index"].values


@ensures("P21", "gather.ProjectGather._get_indices")
def get_indices(self, eval_wins, site, meas_name, level_metadata):
    return rows(eval_wins, site, meas_name, level_metadata)


@ensures("P21", "gather.ProjectGather._populate_data", opaque=["gather.Selection.get_eval_wins", "spectra.SpectraData.get_chans"])
def populate_data(self, selection, site, meas, eval_data, chans, data):
    for level in range(selection.n_levels):
        if level >= eval_data.metadata.n_levels:
            break
        x = eval_data.get_chans(level, chans)
        for k in range(selection.dec_params.per_level):
            src, dst = rows(selection.get_eval_wins(level, k), site, meas, eval_data.metadata.levels_metadata[level])
            data[selection.dec_params.per_level * level + k][dst] = x[src, ..., k]
    return data


GATHER = ["gather.ProjectGather._get_site_data"]


@ensures("P21", "gather.ProjectGather.run", view="ret.out_data", opaque=GATHER)
def gather_out(self, config_name, proj, selection, tf, out_name, in_name, cross_name):
    return self._get_site_data(config_name, proj, selection, out_name, tf.out_chans)


@ensures("P21", "gather.ProjectGather.run", view="ret.in_data", opaque=GATHER)
def gather_in(self, config_name, proj, selection, tf, out_name, in_name, cross_name):
    return self._get_site_data(config_name, proj, selection, out_name if in_name is None else in_name, tf.in_chans)


@ensures("P21", "gather.ProjectGather.run", view="ret.cross_data", opaque=GATHER)
def gather_cross(self, config_name, proj, selection, tf, out_name, in_name, cross_name):
    name = cross_name
    if name is None:
        name = out_name if in_name is None else in_name
    return self._get_site_data(config_name, proj, selection, name, tf.cross_chans)


SITE = ["gather.ProjectGather._populate_data", "gather.ProjectGather._get_empty_data", "gather.Selection.get_measurements",
        "gather.Selection.get_eval_freqs", "spectra.SpectraDataReader.run"]


@ensures("P21 P04", "gather.ProjectGather._get_site_data", view="effects", opaque=SITE)
def site_data_reads(self, config_name, proj, selection, site_name, chans):
    site = proj.get_site(site_name)
    data = self._get_empty_data(selection, chans)
    for meas in selection.get_measurements(site):
        x = SpectraDataReader().run(evals_path(proj, site.name, meas, config_name))
        self._populate_data(selection, site, meas, x, chans, data)


@ensures("P21 P04", "gather.ProjectGather._get_site_data", view="ret.data", opaque=SITE)
def site_data(self, config_name, proj, selection, site_name, chans):
    site = proj.get_site(site_name)
    data = self._get_empty_data(selection, chans)
    for meas in selection.get_measurements(site):
        x = SpectraDataReader().run(evals_path(proj, site.name, meas, config_name))
        self._populate_data(selection, site, meas, x, chans, data)
    return data


@ensures("P21 P02", "gather.ProjectGather._get_site_data", view="ret.metadata", opaque=SITE)
def site_metadata(self, config_name, proj, selection, site_name, chans):
    site = proj.get_site(site_name)
    names = selection.get_measurements(site)
    data = self._get_empty_data(selection, chans)
    first = None
    histories = {}
    for meas in names:
        x = SpectraDataReader().run(evals_path(proj, site.name, meas, config_name))
        self._populate_data(selection, site, meas, x, chans, data)
        histories[meas] = x.metadata.history
        if first is None:
            first = x.metadata
    return SiteCombinedMetadata(site_name=site.name, fs=selection.dec_params.fs, system=first.system, serial=first.serial,
                                wgs84_latitude=first.wgs84_latitude, wgs84_longitude=first.wgs84_longitude,
                                easting=first.easting, northing=first.northing, elevation=first.elevation,
                                measurements=names, chans=chans, n_evals=len(data),
                                eval_freqs=selection.get_eval_freqs(), histories=histories)


# ================================================================ gathering outside projects (P21)
def quick_data(dec_params, eval_data, chans):
    out = {}
    for level in range(eval_data.metadata.n_levels):
        x = eval_data.get_chans(level, chans)
        for k in range(eval_data.metadata.levels_metadata[level].n_freqs):
            out[dec_params.per_level * level + k] = x[..., k]
    return out


def quick_metadata(dir_path, dec_params, eval_data, chans):
    m = eval_data.metadata
    freqs = []
    for level in range(m.n_levels):
        freqs = freqs + m.levels_metadata[level].freqs
    return SiteCombinedMetadata(site_name=dir_path.name, fs=dec_params.fs, system=m.system, serial=m.serial,
                                wgs84_latitude=m.wgs84_latitude, wgs84_longitude=m.wgs84_longitude,
                                easting=m.easting, northing=m.northing, elevation=m.elevation,
                                measurements=[dir_path.name], chans=chans, n_evals=len(freqs),
                                eval_freqs=freqs, histories={dir_path.name: m.history})


QG = {"opaque": ["spectra.SpectraData.get_chans"], "partial": True}


@ensures("P21", "gather.QuickGather.run", view="ret.out_data.data", **QG)
def quick_out(self, dir_path, dec_params, tf, eval_data):
    return quick_data(dec_params, eval_data, tf.out_chans)


@ensures("P21", "gather.QuickGather.run", view="ret.in_data.data", **QG)
def quick_in(self, dir_path, dec_params, tf, eval_data):
    return quick_data(dec_params, eval_data, tf.in_chans)


@ensures("P21", "gather.QuickGather.run", view="ret.cross_data.data", **QG)
def quick_cross(self, dir_path, dec_params, tf, eval_data):
    return quick_data(dec_params, eval_data, tf.cross_chans)


@ensures("P21 P02", "gather.QuickGather.run", view="ret.out_data.metadata", **QG)
def quick_out_metadata(self, dir_path, dec_params, tf, eval_data):
    return quick_metadata(dir_path, dec_params, eval_data, tf.out_chans)


@ensures("P21 P02", "gather.QuickGather.run", view="ret.in_data.metadata", **QG)
def quick_in_metadata(self, dir_path, dec_params, tf, eval_data):
    return quick_metadata(dir_path, dec_params, eval_data, tf.in_chans)


@ensures("P21 P02", "gather.QuickGather.run", view="ret.cross_data.metadata", **QG)
def quick_cross_metadata(self, dir_path, dec_params, tf, eval_data):
    return quick_metadata(dir_path, dec_params, eval_data, tf.cross_chans)
