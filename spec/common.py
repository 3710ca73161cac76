"""Shared helpers: files, channels, records, processes, writers."""
import json
from datetime import datetime
import numpy as np


# ---- paths (P29) --------------------------------------------------------------
@ensures("P29", "common.is_file")
def is_file(file_path):
    return file_path.exists() and file_path.is_file()


@ensures("P29", "common.is_dir")
def is_dir(dir_path):
    return dir_path.exists() and dir_path.is_dir()


@ensures("P29", "common.assert_file")
def assert_file(file_path):
    if not file_path.exists():
        raise FileNotFoundError("")
    if not file_path.is_file():
        raise NotFileError(file_path)


@ensures("P29", "common.assert_dir")
def assert_dir(dir_path):
    if not dir_path.exists():
        raise FileNotFoundError("")
    if not dir_path.is_dir():
        raise NotDirectoryError(dir_path)


def contents(dir_path):
    if not dir_path.exists():
        raise PathNotFoundError(dir_path)
    if not dir_path.is_dir():
        raise NotDirectoryError(dir_path)
    files = [x for x in dir_path.iterdir() if x.is_file()]
    dirs = [x for x in dir_path.iterdir() if x.is_dir() and not x.is_file()]
    return dirs, files


@ensures("P29", "common.dir_contents")
def dir_contents(dir_path):
    return contents(dir_path)


@ensures("P29", "common.dir_files")
def dir_files(dir_path):
    return contents(dir_path)[1]


@ensures("P29", "common.dir_subdirs")
def dir_subdirs(dir_path):
    return contents(dir_path)[0]


# ---- channels (P16, P10) --------------------------------------------------------
@ensures("P16", "common.check_chan")
def check_chan(chan, chans):
    if chan in chans:
        return True
    raise ChannelNotFoundError(chan, chans)


@ensures("P10", "common.is_electric")
def is_electric(chan):
    return chan in ["Ex", "Ey", "E1", "E2", "E3", "E4"]


@ensures("P10", "common.is_magnetic")
def is_magnetic(chan):
    return chan in ["Hx", "Hy", "Hz", "Bx", "By", "Bz"]


@ensures("P10", "common.get_chan_type")
def get_chan_type(chan):
    if chan in ["Ex", "Ey", "E1", "E2", "E3", "E4"]:
        return "electric"
    if chan in ["Hx", "Hy", "Hz", "Bx", "By", "Bz"]:
        return "magnetic"
    raise ValueError("")


# ---- text forms (P04) --------------------------------------------------------------
@ensures("P04", "common.fs_to_string")
def fs_to_string(fs):
    return f"{fs:.6f}".replace(".", "_")


# ---- records and histories (P02) ------------------------------------------------------
@ensures("P02", "common.History.add_record", view="post(self).records")
def add_record(self, record):
    return self.records + [record]


@ensures("P02", "common.get_history", view="ret.records")
def get_history(record, history):
    if history is None:
        return [record]
    return history.records + [record]


@ensures("P02", "common.ResisticsProcess._get_record", opaque=["common.ResisticsProcess.parameters"])
def process_record(self, messages):
    return get_record(self.parameters(), messages)


@ensures("P02", "common.ResisticsWriter._get_record", opaque=["common.ResisticsProcess.parameters"])
def writer_record(self, dir_path, data_type):
    return get_record(self.parameters(), "")


@ensures("P25 P02", "common.ResisticsProcess.parameters")
def parameters(self):
    return json.loads(self.json())


# ---- registry (P25) ---------------------------------------------------------------------
@ensures("P25", "common.ResisticsProcess.validate")
def validate(cls, value):
    if isinstance(value, ResisticsProcess):
        return value
    if not isinstance(value, dict):
        raise ValueError("")
    if "name" not in value:
        raise KeyError("")
    rest = {k: v for k, v in value.items() if k != "name"}
    try:
        return cls._types[value["name"]](**rest)
    except Exception:
        raise ValueError("")


@ensures("P25", "common.ResisticsProcess@name")
def validate_name(cls, value):
    return cls.__name__ if value is None else value


@ensures("P25", "common.ResisticsProcess.__init_subclass__", view="post(cls)._types")
def init_subclass(cls):
    return {**cls._types, cls.__name__: cls}


# ---- metadata files (P03) -----------------------------------------------------------------
@ensures("P03", "common.WriteableMetadata.write", view="effects")
def write(self, json_path):
    self.file_info = ResisticsFile()
    with json_path.open("w") as f:
        f.write(self.json())


@ensures("P06 P16", "common.Metadata@n_chans")
def validate_n_chans(cls, value, values):
    return len(values["chans"]) if value is None else value


# ---- writers (P05) -----------------------------------------------------------------------------
@ensures("P05", "common.ResisticsWriter._check_dir")
def check_dir(self, dir_path):
    return self.overwrite or not dir_path.exists()


@ensures("P05", "common.ResisticsWriter._check_dir", view="effects")
def check_dir_effects(self, dir_path):
    if not dir_path.exists():
        dir_path.mkdir(parents=True)


@ensures("P25", "common.ResisticsProcess.__get_validators__", view="yields")
def process_validators(cls):
    yield cls.validate


@ensures("P02", "common.array_to_string")
def array_text(data, sep, precision, scientific):
    style = "e" if scientific else "f"
    text = np.array2string(data, separator=sep, formatter={"float_kind": lambda x: f"{x:.{precision}{style}}"})
    return text.lstrip("[").rstrip("]")


@ensures("P02", "common.get_record")
def new_record(creator, messages, record_type, time_utc, time_local):
    return Record(time_utc=datetime.utcnow() if time_utc is None else time_utc,
                  time_local=datetime.now() if time_local is None else time_local,
                  creator=creator,
                  messages=[messages] if isinstance(messages, str) else messages,
                  record_type=record_type)
