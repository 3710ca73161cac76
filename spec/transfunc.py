"""Transfer functions: channels, components, rebuilding from stored forms."""
import numpy as np


# ================================================================ components (P23, P24)
@ensures("P24 P23", "transfunc.Component.get_value")
def get_value(self, eval_idx):
    return self.real[eval_idx] + 1j * self.imag[eval_idx]


@ensures("P24 P23", "transfunc.Component.to_numpy")
def to_numpy(self):
    return np.array(self.real) + 1j * np.array(self.imag)


@ensures("P24 P23", "transfunc.get_component_key")
def get_component_key(out_chan, in_chan):
    return out_chan + in_chan


# ================================================================ definition (P24)
@ensures("P24", "transfunc.TransferFunction@name")
def validate_name(cls, value):
    return cls.__name__ if value is None else value


@ensures("P24", "transfunc.TransferFunction@cross_chans")
def validate_cross_chans(cls, value, values):
    return values["in_chans"] if value is None else value


@ensures("P24", "transfunc.TransferFunction@n_out")
def validate_n_out(cls, value, values):
    return len(values["out_chans"]) if value is None else value


@ensures("P24", "transfunc.TransferFunction@n_in")
def validate_n_in(cls, value, values):
    return len(values["in_chans"]) if value is None else value


@ensures("P24", "transfunc.TransferFunction@n_cross")
def validate_n_cross(cls, value, values):
    return len(values["cross_chans"]) if value is None else value


@ensures("P24", "transfunc.TransferFunction.n_eqns_per_output")
def n_eqns_per_output(self):
    return len(self.cross_chans)


@ensures("P24", "transfunc.TransferFunction.n_regressors")
def n_regressors(self):
    return self.n_in


@ensures("P24", "transfunc.TransferFunction.validate")
def validate(cls, value):
    if isinstance(value, TransferFunction):
        return value
    if not isinstance(value, dict):
        raise ValueError("")
    if "name" not in value:
        raise KeyError("")
    d = dict(value)
    name = d.pop("name")
    if name == "TransferFunction":
        return cls(**d)
    try:
        return cls._types[name](**d)
    except Exception:
        raise ValueError("")


# ================================================================ labels (P24)
def out_string(self, k, n):
    if k >= self.n_out:
        return f"{'':{n + 4}s}"
    return f"| {self.out_chans[k]:{n}s} |"


def in_string(self, k, n):
    if k >= self.n_in:
        return ""
    return f"| {self.in_chans[k]:{n}s} |"


def tensor_string(self, k, n):
    if k >= self.n_out:
        return f"{'':{(n * 2 + 1 + 1) * self.n_in + 3}s}"
    s = "| "
    for chan in self.in_chans:
        label = f"{self.out_chans[k]}_{chan}"
        s += f"{label:{2 * n + 1}s} "
    return s + "|"


@ensures("P24", "transfunc.TransferFunction._out_chan_string")
def out_chan_string(self, il, max_len):
    return out_string(self, il, max_len)


@ensures("P24", "transfunc.TransferFunction._in_chan_string")
def in_chan_string(self, il, max_len):
    return in_string(self, il, max_len)


@ensures("P24", "transfunc.TransferFunction._tensor_string")
def row_string(self, il, max_len):
    return tensor_string(self, il, max_len)


@ensures("P24", "transfunc.TransferFunction.to_string")
def to_string(self):
    n_lines = max(len(self.in_chans), len(self.out_chans))
    n = max([len(x) for x in self.in_chans] + [len(x) for x in self.out_chans])
    s = ""
    for k in range(n_lines):
        eq = "=" if k == (n_lines - 1) // 2 else " "
        s += f"{out_string(self, k, n)} {eq} {tensor_string(self, k, n)} {in_string(self, k, n)}\n"
    return s.rstrip("\n")


# ================================================================ impedance tensor and tipper (P24)
@ensures("P24", "transfunc.ImpedanceTensor.get_resistivity")
def get_resistivity(periods, component):
    z = np.array(component.real) + 1j * np.array(component.imag)
    return 0.2 * periods * np.power(np.absolute(z), 2)


@ensures("P24", "transfunc.ImpedanceTensor.get_phase")
def get_phase(key, component):
    z = np.array(component.real) + 1j * np.array(component.imag)
    phs = np.unwrap(np.angle(z)) * 180 / np.pi
    if key in ("ExHx", "ExHy"):
        return np.mod(phs, 360) - 180
    return phs


@ensures("P24", "transfunc.Tipper.get_length")
def get_length(self, components):
    return np.sqrt(np.power(components["HzHx"].real, 2) + np.power(components["HzHy"].real, 2))


@ensures("P24", "transfunc.Tipper.get_real_angle")
def get_real_angle(self, components):
    return np.arctan(np.array(components["HzHy"].real) / np.array(components["HzHx"].real)) * 180 / np.pi


@ensures("P24", "transfunc.Tipper.get_imag_angle")
def get_imag_angle(self, components):
    return np.arctan(np.array(components["HzHy"].imag) / np.array(components["HzHx"].imag)) * 180 / np.pi


@ensures("P24", "transfunc.TransferFunction.__init_subclass__", view="post(cls)._types")
def register_type(cls):
    return {**cls._types, cls.__name__: cls}


@ensures("P24", "transfunc.TransferFunction.__get_validators__", view="yields")
def tf_validators(cls):
    yield cls.validate
