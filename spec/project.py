"""Projects: where products live, and what the project contains."""
import pandas as pd


# ================================================================ locations (P04)
@ensures("P04", "project.get_calibration_path")
def get_calibration_path(proj_dir):
    return proj_dir / "calibrate"


@ensures("P04", "project.get_meas_time_path")
def get_meas_time_path(proj_dir, site_name, meas_name):
    return proj_dir / "time" / site_name / meas_name


@ensures("P04", "project.get_meas_spectra_path")
def get_meas_spectra_path(proj_dir, site_name, meas_name, config_name):
    return proj_dir / "spectra" / site_name / config_name / meas_name


@ensures("P04", "project.get_meas_evals_path")
def get_meas_evals_path(proj_dir, site_name, meas_name, config_name):
    return proj_dir / "evals" / site_name / config_name / meas_name


@ensures("P04", "project.get_meas_features_path")
def get_meas_features_path(proj_dir, site_name, meas_name, config_name):
    return proj_dir / "features" / site_name / config_name / meas_name


@ensures("P04", "project.get_mask_path")
def get_mask_path(proj_dir, site_name, config_name):
    return proj_dir / "masks" / site_name / config_name


@ensures("P04", "project.get_results_path")
def get_results_path(proj_dir, site_name, config_name):
    return proj_dir / "results" / site_name / config_name


@ensures("P04", "project.get_mask_name")
def get_mask_name(fs, mask_name):
    return f"{fs_to_string(fs)}_{mask_name}.dat"


@ensures("P04", "project.get_solution_name")
def get_solution_name(fs, tf_name, tf_var, postfix):
    name = f"{fs_to_string(fs)}_{tf_name.lower()}"
    if tf_var != "":
        name = name + "_" + tf_var.replace(" ", "_")
    if postfix is not None:
        name = name + "_" + postfix
    return name + ".json"


# ================================================================ queries (P19)
@ensures("P19 P04", "project.Measurement.name project.Site.name")
def dir_name(self):
    return self.dir_path.name


@ensures("P19", "project.Site.n_meas")
def n_meas(self):
    return len(self.measurements)


@ensures("P19", "project.Site.__iter__")
def site_iter(self):
    return iter(self.measurements.values())


def site_fs(site):
    return sorted(list(set([x.metadata.fs for x in site.measurements.values()])))


@ensures("P19", "project.Site.fs")
def fs_of_site(self):
    return site_fs(self)


@ensures("P19 P29", "project.Site.get_measurement project.Site.__getitem__")
def get_measurement(self, meas_name):
    if meas_name not in self.measurements:
        raise MeasurementNotFoundError(self.name, meas_name)
    return self.measurements[meas_name]


@ensures("P19", "project.Site.get_measurements")
def get_measurements(self, fs):
    if fs is None:
        return self.measurements
    return {name: x for name, x in self.measurements.items() if x.metadata.fs == fs}


@ensures("P19", "project.Site.to_dataframe")
def site_table(self):
    rows = []
    for x in self.measurements.values():
        rows.append([x.name, x.metadata.fs, x.metadata.first_time.isoformat(), x.metadata.last_time.isoformat()])
    df = pd.DataFrame(data=rows, columns=["name", "fs", "first_time", "last_time"])
    df["first_time"] = pd.to_datetime(df["first_time"])
    df["last_time"] = pd.to_datetime(df["last_time"])
    df["site"] = self.dir_path.name
    return df


@ensures("P19", "project.Project.n_sites")
def n_sites(self):
    return len(self.sites)


@ensures("P19", "project.Project.__iter__")
def project_iter(self):
    return iter(self.sites.values())


@ensures("P19", "project.Project.fs")
def project_fs(self):
    found = set()
    for site in self.sites.values():
        found = found.union(set(site_fs(site)))
    return sorted(list(found))


@ensures("P19 P29", "project.Project.get_site project.Project.__getitem__")
def get_site(self, site_name):
    if site_name not in self.sites:
        raise SiteNotFoundError(site_name)
    return self.sites[site_name]


@ensures("P19", "project.Project.get_sites")
def get_sites(self, fs):
    if fs is None:
        return self.sites
    return {name: site for name, site in self.sites.items() if fs in site_fs(site)}


@ensures("P19", "project.Project.get_concurrent")
def get_concurrent(self, site_name):
    me = self.sites[site_name]
    return [x for x in self.sites.values() if x.name != site_name and x.end_time >= me.begin_time and x.begin_time <= me.end_time]


@ensures("P19", "project.Project.to_dataframe", opaque=["project.Site.to_dataframe"])
def project_table(self):
    df = pd.DataFrame(columns=["name", "first_time", "last_time", "fs", "site"])
    for site in self.sites.values():
        df = df.append(site.to_dataframe())
    return df
