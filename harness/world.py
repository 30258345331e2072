"""
Convention fixtures ("worlds") for the checks.

The repository ships without its data submodule `sofar/sofa_conventions`.  The
code only ever sees that folder as *configuration*: JSON convention
definitions plus rule files.  The checks therefore quantify over
configurations: this module builds one deterministic world per process, made
of

* a hand-written approximation of the AES69 conventions (names, entries,
  dimensions and flags as used by the docs and the repository's own tests), and
* generated conventions (from the seed), which vary what the hand-written ones
  keep constant: flags, dimension strings, data types, entry order, versions.

Nothing in here imports sofar.
"""
import json
import os
import random


# --------------------------------------------------------------------------
# building blocks
def ent(default, flags=None, dims=None, typ="attribute", comment=""):
    return {"default": default, "flags": flags, "dimensions": dims,
            "type": typ, "comment": comment}


def base_globals(conv, version, datatype, room="free field",
                 sofa_version="2.1", datatype_flags="rm"):
    e = {}
    e["GLOBAL:Conventions"] = ent("SOFA", "rm")
    e["GLOBAL:Version"] = ent(sofa_version, "rm", comment="Version number")
    e["GLOBAL:SOFAConventions"] = ent(
        conv, "rm", comment=f"This is the convention {conv}")
    e["GLOBAL:SOFAConventionsVersion"] = ent(version, "rm")
    e["GLOBAL:APIName"] = ent("", "rm")
    e["GLOBAL:APIVersion"] = ent("", "rm")
    e["GLOBAL:ApplicationName"] = ent("", None)
    e["GLOBAL:ApplicationVersion"] = ent("", None)
    e["GLOBAL:AuthorContact"] = ent("", "m")
    e["GLOBAL:Comment"] = ent("", None)
    e["GLOBAL:DataType"] = ent(datatype, datatype_flags,
                               comment="Shall be " + datatype)
    e["GLOBAL:History"] = ent("", None)
    e["GLOBAL:License"] = ent("No license provided, ask the author for "
                              "permission", "m")
    e["GLOBAL:Organization"] = ent("", "m")
    e["GLOBAL:References"] = ent("", None)
    e["GLOBAL:RoomType"] = ent(room, "m")
    e["GLOBAL:Origin"] = ent("", None)
    e["GLOBAL:DateCreated"] = ent("", "m")
    e["GLOBAL:DateModified"] = ent("", "m")
    e["GLOBAL:Title"] = ent("", "m")
    return e


def position(e, name, default, flags="m", dims="IC, MC", typ="cartesian",
             units="metre"):
    e[name] = ent(default, flags, dims, "double")
    e[name + ":Type"] = ent(typ, flags)
    e[name + ":Units"] = ent(units, flags)


def room(e):
    """Optional description of a room."""
    e["GLOBAL:RoomShortName"] = ent("", None)
    e["GLOBAL:RoomGeometry"] = ent("", None)
    e["RoomVolume"] = ent(0, None, "II, MI", "double")
    e["RoomVolume:Units"] = ent("cubic metre", None)
    position(e, "RoomCorners", 0, None, dims="II")
    e["RoomCornerA"] = ent([0, 0, 0], None, "IC, MC", "double")
    e["RoomCornerB"] = ent([1, 2, 3], None, "IC, MC", "double")


def fir(e, ir, dims="mRn", delay=True, delay_default=None,
        delay_dims="IR, MR"):
    e["Data.IR"] = ent(ir, "m", dims, "double")
    e["Data.SamplingRate"] = ent(48000, "m", "I, M", "double",
                                 "Sampling rate of the samples")
    e["Data.SamplingRate:Units"] = ent("hertz", "m")
    if delay:
        e["Data.Delay"] = ent(delay_default, "m", delay_dims, "double")


def tf(e, value, dims="mRn"):
    e["N"] = ent(0, "m", "N", "double", "Frequency values")
    e["N:LongName"] = ent("frequency", None)
    e["N:Units"] = ent("hertz", "m")
    e["Data.Real"] = ent(value, "m", dims, "double")
    e["Data.Imag"] = ent(value, "m", dims, "double")


def reorder(e):
    """GLOBAL entries first, other meta data next, data last."""
    glob = [k for k in e if "GLOBAL" in k]
    data = [k for k in e if k.startswith("Data")]
    rest = [k for k in e if k not in glob and k not in data]
    return {k: e[k] for k in glob + rest + data}


def realistic():
    """List of (name, version, deprecated, entries)."""
    out = []

    def add(name, version, deprecated, e):
        out.append((name, version, deprecated, reorder(e)))

    # --- GeneralTF -------------------------------------------------------
    for version, depr in (("1.0", True), ("2.0", False)):
        e = base_globals("GeneralTF", version, "TF",
                         sofa_version="1.0" if depr else "2.1")
        position(e, "ListenerPosition", [0, 0, 0])
        position(e, "ReceiverPosition", [0, 0, 0], dims="rCI, rCM")
        position(e, "SourcePosition", [0, 0, 1])
        position(e, "EmitterPosition", [0, 0, 0], dims="eCI, eCM")
        if depr:
            e["ListenerExtra"] = ent(1, None, "I, M", "double")
        tf(e, [0])
        add("GeneralTF", version, depr, e)

    # --- GeneralFIR ------------------------------------------------------
    e = base_globals("GeneralFIR", "1.0", "FIR")
    position(e, "ListenerPosition", [0, 0, 0])
    position(e, "ReceiverPosition", [0, 0, 0], dims="rCI, rCM")
    position(e, "SourcePosition", [0, 0, 1])
    position(e, "EmitterPosition", [0, 0, 0], dims="eCI, eCM")
    fir(e, [0], delay_default=[0])
    add("GeneralFIR", "1.0", False, e)

    # --- GeneralFIR-E / GeneralTF-E ---------------------------------------
    e = base_globals("GeneralFIR-E", "2.0", "FIR-E")
    position(e, "ListenerPosition", [0, 0, 0])
    position(e, "ReceiverPosition", [0, 0, 0], dims="rCI, rCM")
    position(e, "SourcePosition", [0, 0, 1])
    position(e, "EmitterPosition", [0, 0, 0], dims="eCI, eCM")
    fir(e, [0], dims="mRne", delay_default=[0], delay_dims="IRI, MRI, MRE")
    add("GeneralFIR-E", "2.0", False, e)

    e = base_globals("GeneralTF-E", "1.0", "TF-E")
    position(e, "ListenerPosition", [0, 0, 0])
    position(e, "ReceiverPosition", [0, 0, 0], dims="rCI, rCM")
    position(e, "SourcePosition", [0, 0, 1])
    position(e, "EmitterPosition", [0, 0, 0], dims="eCI, eCM")
    tf(e, [0], dims="mRnE")
    add("GeneralTF-E", "1.0", False, e)

    # --- GeneralSOS / HRSOS ------------------------------------------------
    e = base_globals("GeneralSOS", "1.0", "SOS")
    position(e, "ListenerPosition", [0, 0, 0])
    position(e, "ReceiverPosition", [0, 0, 0], dims="rCI, rCM")
    position(e, "SourcePosition", [0, 0, 1])
    position(e, "EmitterPosition", [0, 0, 0], dims="eCI, eCM")
    e["Data.SOS"] = ent([[[0, 0, 0, 1, 0, 0]]], "m", "mRn", "double")
    e["Data.SamplingRate"] = ent(48000, "m", "I, M", "double")
    e["Data.SamplingRate:Units"] = ent("hertz", "m")
    e["Data.Delay"] = ent([0], "m", "IR, MR", "double")
    add("GeneralSOS", "1.0", False, e)

    e = base_globals("SimpleFreeFieldHRSOS", "1.0", "SOS")
    position(e, "ListenerPosition", [0, 0, 0])
    position(e, "ReceiverPosition", [[0, 0.09, 0], [0, -0.09, 0]],
             dims="rCI, rCM")
    position(e, "SourcePosition", [0, 0, 1], typ="spherical",
             units="degree, degree, metre")
    position(e, "EmitterPosition", [0, 0, 0], dims="eCI, eCM")
    e["ListenerUp"] = ent([0, 0, 1], "m", "IC, MC", "double")
    position(e, "ListenerView", [1, 0, 0])
    e["Data.SOS"] = ent([[[0, 0, 0, 1, 0, 0], [0, 0, 0, 1, 0, 0]]], "m",
                        "mRn", "double")
    e["Data.SamplingRate"] = ent(48000, "m", "I, M", "double")
    e["Data.SamplingRate:Units"] = ent("hertz", "m")
    e["Data.Delay"] = ent([0, 0], "m", "IR, MR", "double")
    add("SimpleFreeFieldHRSOS", "1.0", False, e)

    # --- SimpleFreeFieldHRIR -----------------------------------------------
    for version, depr in (("0.4", True), ("1.0", False)):
        e = base_globals("SimpleFreeFieldHRIR", version, "FIR",
                         sofa_version="0.6" if depr else "2.1")
        e["GLOBAL:DatabaseName"] = ent("", "m")
        e["GLOBAL:ListenerShortName"] = ent("", "m")
        position(e, "ListenerPosition", [0, 0, 0])
        position(e, "ReceiverPosition", [[0, 0.09, 0], [0, -0.09, 0]],
                 dims="rCI, rCM")
        position(e, "SourcePosition", [0, 0, 1], typ="spherical",
                 units="degree, degree, metre")
        position(e, "EmitterPosition", [0, 0, 0], dims="eCI, eCM")
        e["ListenerUp"] = ent([0, 0, 1], "m", "IC, MC", "double")
        position(e, "ListenerView", [1, 0, 0])
        if not depr:
            e["SourceUp"] = ent([0, 0, 1], None, "IC, MC", "double")
            position(e, "SourceView", [1, 0, 0], None)
        fir(e, [0, 0], delay_default=[0, 0])
        add("SimpleFreeFieldHRIR", version, depr, e)

    # --- FreeFieldHRIR (SH) ------------------------------------------------
    e = base_globals("FreeFieldHRIR", "1.0", "FIR-E")
    e["GLOBAL:DatabaseName"] = ent("", "m")
    e["GLOBAL:ListenerShortName"] = ent("", "m")
    position(e, "ListenerPosition", [0, 0, 0])
    position(e, "ReceiverPosition", [[0, 0.09, 0], [0, -0.09, 0]],
             dims="rCI, rCM")
    position(e, "SourcePosition", [0, 0, 0], typ="spherical",
             units="degree, degree, metre")
    position(e, "EmitterPosition", [0, 0, 1], dims="eCI, eCM",
             typ="spherical harmonics", units="degree, degree, metre")
    e["ListenerUp"] = ent([0, 0, 1], "m", "IC, MC", "double")
    position(e, "ListenerView", [1, 0, 0])
    fir(e, [0, 0], dims="mRne", delay_default=[0, 0],
        delay_dims="IRI, MRI, MRE")
    add("FreeFieldHRIR", "1.0", False, e)

    # --- SimpleFreeFieldHRTF / TF -------------------------------------------
    for name, version, depr in (("SimpleFreeFieldHRTF", "1.0", False),
                                ("SimpleFreeFieldTF", "0.4", True),
                                ("SimpleFreeFieldTF", "1.0", True)):
        e = base_globals(name, version, "TF",
                         sofa_version="1.0" if depr else "2.1")
        e["GLOBAL:DatabaseName"] = ent("", "m")
        e["GLOBAL:ListenerShortName"] = ent("", "m")
        position(e, "ListenerPosition", [0, 0, 0])
        position(e, "ReceiverPosition", [[0, 0.09, 0], [0, -0.09, 0]],
                 dims="rCI, rCM")
        position(e, "SourcePosition", [0, 0, 1], typ="spherical",
                 units="degree, degree, metre")
        position(e, "EmitterPosition", [0, 0, 0], dims="eCI, eCM")
        e["ListenerUp"] = ent([0, 0, 1], "m", "IC, MC", "double")
        position(e, "ListenerView", [1, 0, 0])
        tf(e, [0, 0])
        add(name, version, depr, e)

    # --- SimpleHeadphoneIR (string variables) --------------------------------
    e = base_globals("SimpleHeadphoneIR", "1.0", "FIR")
    e["GLOBAL:DatabaseName"] = ent("", "m")
    e["GLOBAL:ListenerShortName"] = ent("", "m")
    e["GLOBAL:ListenerDescription"] = ent("", None)
    e["GLOBAL:SourceDescription"] = ent("", None)
    e["GLOBAL:EmitterDescription"] = ent("", None)
    e["GLOBAL:ReceiverDescription"] = ent("", None)
    position(e, "ListenerPosition", [0, 0, 0])
    position(e, "ReceiverPosition", [[0, 0.09, 0], [0, -0.09, 0]],
             dims="rCI, rCM")
    position(e, "SourcePosition", [0, 0, 0])
    position(e, "EmitterPosition", [[0, 0.09, 0], [0, -0.09, 0]],
             dims="eCI, eCM")
    e["SourceManufacturer"] = ent([""], None, "IS, MS", "string")
    e["SourceModel"] = ent([""], None, "IS, MS", "string")
    e["ReceiverDescriptions"] = ent([[""], [""]], None, "RS", "string")
    e["EmitterDescriptions"] = ent([[""], [""]], None, "ES, MS", "string")
    e["MeasurementDate"] = ent(0, None, "M", "double")
    fir(e, [0, 0], delay_default=[0, 0])
    add("SimpleHeadphoneIR", "1.0", False, e)

    # --- FreeFieldDirectivityTF ------------------------------------------------
    for version, depr in (("1.0", True), ("1.1", False)):
        e = base_globals("FreeFieldDirectivityTF", version, "TF",
                         sofa_version="2.0" if depr else "2.1")
        e["GLOBAL:DatabaseName"] = ent("", "m")
        e["GLOBAL:Musician"] = ent("", None)
        if depr:
            e["GLOBAL:EmitterDescription"] = ent("", None)
        else:
            e["GLOBAL:Description"] = ent("", "m")
        position(e, "ListenerPosition", [0, 0, 0])
        position(e, "ReceiverPosition", [0, 0, 1], dims="rCI, rCM",
                 typ="spherical", units="degree, degree, metre")
        position(e, "SourcePosition", [0, 0, 0])
        position(e, "EmitterPosition", [0, 0, 0], dims="eCI, eCM, ECM")
        e["EmitterDescriptions"] = ent([""], None, "IS, MS",
                                       "string")
        e["SourceTuningFrequency"] = ent(440, None, "I, M", "double")
        e["SourceTuningFrequency:Units"] = ent("hertz", None)
        e["MIDINote"] = ent(0, None, "I, M", "double")
        tf(e, [0])
        add("FreeFieldDirectivityTF", version, depr, e)

    # --- MultiSpeakerBRIR (deprecated) -> SingleRoomMIMOSRIR --------------------
    e = base_globals("MultiSpeakerBRIR", "0.3", "FIRE", room="reverberant",
                     sofa_version="0.6")
    e["GLOBAL:DatabaseName"] = ent("", "m")
    e["GLOBAL:RoomDescription"] = ent("", None)
    position(e, "ListenerPosition", [0, 0, 0])
    position(e, "ReceiverPosition", [[0, 0.09, 0], [0, -0.09, 0]],
             dims="rCI, rCM")
    position(e, "SourcePosition", [0, 0, 1])
    position(e, "EmitterPosition", [0, 0, 0], dims="eCI, eCM")
    e["EmitterUp"] = ent([0, 0, 1], None, "ECI, ECM", "double")
    position(e, "EmitterView", [1, 0, 0], None, dims="ECI, ECM")
    fir(e, [0, 0], dims="mREn", delay_default=[0, 0],
        delay_dims="IRE, MRE")
    add("MultiSpeakerBRIR", "0.3", True, e)

    e = base_globals("SingleRoomMIMOSRIR", "1.0", "FIR-E",
                     room="reverberant")
    e["GLOBAL:DatabaseName"] = ent("", "m")
    e["GLOBAL:RoomDescription"] = ent("", "m")
    position(e, "ListenerPosition", [0, 0, 0])
    position(e, "ReceiverPosition", [0, 0, 0], dims="rCI, rCM")
    position(e, "SourcePosition", [0, 0, 1])
    position(e, "EmitterPosition", [0, 0, 0], dims="eCI, eCM")
    e["ReceiverDescriptions"] = ent([""], None, "RS, IS", "string")
    e["RoomTemperature"] = ent(0, None, "I, M", "double")
    e["RoomTemperature:Units"] = ent("kelvin", None)
    room(e)
    e["ReceiverUp"] = ent([0, 0, 1], None, "RCI, RCM", "double")
    position(e, "ReceiverView", [1, 0, 0], None, dims="RCI, RCM")
    fir(e, [0], dims="mRne", delay_default=[0],
        delay_dims="IRI, MRI, IRE, MRE")
    add("SingleRoomMIMOSRIR", "1.0", False, e)

    # --- SingleRoomDRIR (deprecated, preliminary) -> SingleRoomSRIR ------------
    for version in ("0.2", "0.3"):
        e = base_globals("SingleRoomDRIR", version, "FIR",
                         room="reverberant", sofa_version="1.0")
        e["GLOBAL:DatabaseName"] = ent("", "m")
        e["GLOBAL:RoomDescription"] = ent("", "m")
        position(e, "ListenerPosition", [0, 0, 0])
        position(e, "ReceiverPosition", [0, 0, 0], dims="rCI, rCM")
        position(e, "SourcePosition", [0, 0, 1])
        position(e, "EmitterPosition", [0, 0, 0], dims="eCI, eCM")
        e["SourceUp"] = ent([0, 0, 1], "m", "IC, MC", "double")
        position(e, "SourceView", [-1, 0, 0], "m")
        if version == "0.2":
            e["RoomNote"] = ent([""], None, "IS, MS", "string")
        fir(e, [0], delay_default=[0])
        add("SingleRoomDRIR", version, True, e)
    e = base_globals("SingleRoomSRIR", "1.0", "FIR", room="reverberant")
    e["GLOBAL:DatabaseName"] = ent("", "m")
    e["GLOBAL:RoomDescription"] = ent("", "m")
    position(e, "ListenerPosition", [0, 0, 0])
    position(e, "ReceiverPosition", [0, 0, 0], dims="rCI, rCM")
    position(e, "SourcePosition", [0, 0, 1])
    position(e, "EmitterPosition", [0, 0, 0], dims="eCI, eCM")
    e["MeasurementDate"] = ent(0, "m", "M", "double")
    room(e)
    fir(e, [0], delay_default=[0])
    add("SingleRoomSRIR", "1.0", False, e)

    # --- SingleTrackedAudio (preliminary, several targets) ----------------------
    for version in ("0.1", "0.2"):
        e = base_globals("SingleTrackedAudio", version, "FIR",
                         sofa_version="1.0")
        position(e, "ListenerPosition", [0, 0, 0])
        position(e, "ReceiverPosition", [0, 0, 0], dims="rCI, rCM")
        position(e, "SourcePosition", [0, 0, 1])
        position(e, "EmitterPosition", [0, 0, 0], dims="eCI, eCM")
        fir(e, [0], delay_default=[0])
        add("SingleTrackedAudio", version, True, e)

    # --- annotated, preliminary and up to date -----------------------------------
    e = base_globals("AnnotatedEmitterAudio", "0.2", "FIR-E",
                     room="reverberant")
    e["GLOBAL:RoomDescription"] = ent("", None)
    position(e, "ListenerPosition", [0, 0, 0])
    position(e, "ReceiverPosition", [0, 0, 0], dims="rCI, rCM")
    position(e, "SourcePosition", [0, 0, 1])
    position(e, "EmitterPosition", [0, 0, 0], dims="eCI, eCM")
    e["M"] = ent(0, "m", "M", "double")
    e["M:LongName"] = ent("time", None)
    e["M:Units"] = ent("second", None)
    fir(e, [0], dims="mRne", delay_default=[0],
        delay_dims="IRI, MRI, IRE, MRE")
    add("AnnotatedEmitterAudio", "0.2", False, e)
    return out


# --------------------------------------------------------------------------
# rule files
UNIT_ALIASES = {
    "metre": "metre", "metres": "metre", "meter": "metre", "meters": "metre",
    "degree": "degree", "degrees": "degree",
    "cubic metre": "cubic metre", "cubic metres": "cubic metre",
    "cubic meter": "cubic metre", "cubic meters": "cubic metre",
    "cubic": "cubic",
    "hertz": "hertz", "kelvin": "kelvin", "kelvins": "kelvin",
    "second": "second", "seconds": "second", "sample": "sample",
    "samples": "sample",
}

SPATIAL = ["ListenerPosition", "ListenerView", "ReceiverPosition",
           "ReceiverView", "SourcePosition", "SourceView", "EmitterPosition",
           "EmitterView", "RoomCorners"]
SH = ["ReceiverPosition", "EmitterPosition", "ReceiverView", "EmitterView"]


def rules(conventions):
    r = {}
    r["GLOBAL:Conventions"] = {"value": ["SOFA"]}
    r["GLOBAL:Version"] = {"value": None}
    datatype = {
        "FIR": {"Data.IR": None, "Data.Delay": None,
                "Data.SamplingRate": None,
                "Data.SamplingRate:Units": ["hertz"]},
        "TF": {"Data.Real": None, "Data.Imag": None, "N": None,
               "N:Units": ["hertz"]},
        "SOS": {"Data.SOS": None, "Data.Delay": None,
                "Data.SamplingRate": None,
                "Data.SamplingRate:Units": ["hertz"],
                "_dimensions": {"N": {
                    "value": [6 * i for i in range(1, 50)],
                    "value_str": "an integer multiple of 6 greater 0"}}},
    }
    for a, b in (("FIR-E", "FIR"), ("FIRE", "FIR"), ("TF-E", "TF")):
        datatype[a] = dict(datatype[b])
    r["GLOBAL:DataType"] = {"value": list(datatype), "specific": datatype}
    r["GLOBAL:RoomType"] = {
        "value": ["free field", "reverberant", "shoebox", "dae"],
        "specific": {
            "reverberant": {"GLOBAL:RoomDescription": None},
            "shoebox": {"RoomCornerA": None, "RoomCornerB": None},
            "dae": {"GLOBAL:RoomGeometry": None}}}
    conv = {}
    for name, _, _, e in conventions:
        spec = conv.setdefault(name, {})
        dt = e["GLOBAL:DataType"]["default"]
        spec.setdefault("GLOBAL:DataType", [])
        if dt not in spec["GLOBAL:DataType"]:
            spec["GLOBAL:DataType"].append(dt)
    for name in ("SimpleFreeFieldHRIR", "SimpleFreeFieldHRTF",
                 "SimpleFreeFieldHRSOS"):
        conv[name]["GLOBAL:RoomType"] = ["free field"]
        conv[name]["_dimensions"] = {"E": {"value": [1], "value_str": "1"}}
    conv["SimpleFreeFieldHRIR"]["EmitterPosition:Type"] = [
        "cartesian", "spherical"]
    r["GLOBAL:SOFAConventions"] = {"value": list(conv), "specific": conv}
    for key in SPATIAL:
        r[key] = {"value": None, "general": [key + ":Type", key + ":Units"]}
        types = ["cartesian", "spherical"]
        spec = {"cartesian": {key + ":Units": ["metre"]},
                "spherical": {key + ":Units": ["degree, degree, metre"]}}
        if key in SH:
            types.append("spherical harmonics")
            spec["spherical harmonics"] = {
                key + ":Units": ["degree, degree, metre"]}
        r[key + ":Type"] = {"value": types, "general": [key],
                            "specific": spec}
        r[key + ":Units"] = {"value": None, "general": [key]}
    for key in ("ListenerUp", "ReceiverUp", "SourceUp", "EmitterUp"):
        r[key] = {"value": None, "general": [key[:-2] + "View"]}
    r["Data.SamplingRate"] = {"value": None,
                              "general": ["Data.SamplingRate:Units"]}
    r["Data.SamplingRate:Units"] = {"value": ["hertz"],
                                    "general": ["Data.SamplingRate"]}
    r["N:Units"] = {"value": None, "general": ["N"]}
    r["RoomVolume"] = {"value": None, "general": ["RoomVolume:Units"]}
    r["RoomVolume:Units"] = {"value": ["cubic metre"],
                             "general": ["RoomVolume"]}
    r["RoomTemperature"] = {"value": None,
                            "general": ["RoomTemperature:Units"]}
    r["RoomTemperature:Units"] = {"value": ["kelvin"],
                                  "general": ["RoomTemperature"]}
    r["SourceTuningFrequency"] = {
        "value": None, "general": ["SourceTuningFrequency:Units"]}
    r["SourceTuningFrequency:Units"] = {
        "value": ["hertz"], "general": ["SourceTuningFrequency"]}
    return r


def deprecations():
    return {"GLOBAL:SOFAConventions": {
        "SimpleFreeFieldTF": "SimpleFreeFieldHRTF",
        "MultiSpeakerBRIR": "SingleRoomMIMOSRIR",
        "SingleRoomDRIR": "SingleRoomSRIR",
        "SingleTrackedAudio": "AnnotatedEmitterAudio",
        "LostConvention": "nothing in particular",
    }}


def upgrades():
    def rule(move=None, remove=None, message=None):
        return {"move": move or {}, "remove": remove or [],
                "message": message}

    def mv(target, moveaxis=None, depr=None):
        return {"target": target, "moveaxis": moveaxis,
                "deprecated_dimensions": depr}

    return {
        "GeneralTF": {
            "from_to": [[["1.0"], ["GeneralTF_2.0"], "upgrade_1"]],
            "upgrade_1": rule(remove=["ListenerExtra"])},
        "SimpleFreeFieldHRIR": {
            "from_to": [[["0.4"], ["SimpleFreeFieldHRIR_1.0"], "upgrade_1"]],
            "upgrade_1": rule(
                message="Consider to add the optional data 'SourceUp'")},
        "SimpleFreeFieldTF": {
            "from_to": [[["0.4", "1.0"], ["SimpleFreeFieldHRTF_1.0"],
                         "upgrade_1"]],
            "upgrade_1": rule()},
        "FreeFieldDirectivityTF": {
            "from_to": [[["1.0"], ["FreeFieldDirectivityTF_1.1"],
                         "upgrade_1"]],
            "upgrade_1": rule(
                move={"GLOBAL:EmitterDescription":
                      mv("GLOBAL:Description")})},
        "MultiSpeakerBRIR": {
            "from_to": [[["0.3"], ["SingleRoomMIMOSRIR_1.0"], "upgrade_1"]],
            "upgrade_1": rule(
                move={"Data.IR": mv("Data.IR", [2, 3]),
                      "Data.Delay": mv("Data.Delay", None)},
                remove=["EmitterUp", "EmitterView", "EmitterView:Type",
                        "EmitterView:Units"])},
        "SingleRoomDRIR": {
            "from_to": [[["0.2"], ["SingleRoomSRIR_1.0"], "upgrade_1"],
                        [["0.3"], ["SingleRoomSRIR_1.0"], "upgrade_2"]],
            "upgrade_1": rule(
                remove=["SourceUp", "SourceView", "SourceView:Type",
                        "SourceView:Units", "RoomNote"],
                message="The room note was dropped."),
            "upgrade_2": rule(
                remove=["SourceUp", "SourceView", "SourceView:Type",
                        "SourceView:Units"])},
        "SingleTrackedAudio": {
            "from_to": [[["0.1", "0.2"],
                         ["AnnotatedEmitterAudio_0.2", "GeneralFIR_1.0"],
                         "upgrade_1"]],
            "upgrade_1": rule(message="Check the data after upgrading.")},
    }


VERSION = "AES69-2022 (verif fixture 2.1)\n"


# --------------------------------------------------------------------------
# generated conventions
EXTRA_GLOBALS = ["Weather", "Layout", "LayoutNote", "Studio", "Operator",
                 "Funding"]
NUMERIC_DIMS = ["I", "M", "I, M", "IC, MC", "MC", "MR", "IR, MR", "MRE",
                "IRI, MRI, IRE, MRE", "ECI, ECM", "RC", "E", "IE, ME", "N",
                "MN", "MRN", "IRN, MRN", "II, MI", "RE", "MCRE", "CR"]
STRING_DIMS = ["IS, MS", "MS", "RS", "RS, IS", "ES, MS", "MRS", "IRS, MRS"]
WORDS = ["Alpha", "Bravo", "Cedar", "Delta", "Ember", "Fjord", "Gamma",
         "Humid", "Iris", "Joule", "Krill", "Lumen", "Mesh", "Nylon",
         "Opal", "Prism", "Quartz", "Radii", "Sigma", "Tempo"]


def extra_rules(r):
    """Rules for entries that only occur in generated conventions."""
    r["GLOBAL:Weather"] = {
        "value": ["sunny", "rainy"],
        "specific": {"rainy": {"Rainfall": None,
                               "Rainfall:Units": ["metre"]}}}
    r["Rainfall"] = {"value": None, "general": ["Rainfall:Units"]}
    r["Rainfall:Units"] = {"value": ["metre"], "general": ["Rainfall"]}
    r["GLOBAL:Layout"] = {
        "value": ["line", "grid", "free"],
        "specific": {
            "line": {"_dimensions": {"R": {"value": [1, 2],
                                           "value_str": "1 or 2"}}},
            "grid": {"GLOBAL:LayoutNote": ["dense", "sparse"]}}}
    r["GLOBAL:LayoutNote"] = {"value": None, "general": ["GLOBAL:Layout"]}
    r["Speed"] = {"value": None, "general": ["Speed:Units", "GLOBAL:Studio"]}
    r["Speed:Units"] = {"value": ["metre, second"], "general": ["Speed"]}
    return r


def fill(rng, shape):
    if not shape:
        return rng.choice([0, 1, -2, 0.5, 3])
    return [fill(rng, shape[1:]) for _ in range(shape[0])]


def shape_of(value):
    return (len(value),) + shape_of(value[0]) if isinstance(value, list) \
        else ()


def default_for(rng, dims, sizes, string):
    """A default value that fits the default sizes, in csv-like notation."""
    option = rng.choice(dims.split(", "))
    shape = [1 if d == "S" else sizes[d.upper()] for d in option]
    if string:
        if all(s == 1 for s in shape):
            return rng.choice([[""], "text", [["a"]]]) if len(shape) == 2 \
                else [""]
        value = fill(rng, shape)

        def to_str(v):
            return [to_str(x) for x in v] if isinstance(v, list) \
                else rng.choice(["", "x", "some text"])
        return to_str(value)
    if all(s == 1 for s in shape) and rng.random() < .8:
        return rng.choice([0, 1, 2.5, -1, [0]])
    # vectors are row vectors
    if len(shape) == 1:
        return fill(rng, shape)
    if shape[0] == 1 and all(s == 1 for s in shape[2:]) \
            and rng.random() < .7:
        return fill(rng, [shape[1]])
    while len(shape) > 2 and shape[-1] == 1:
        shape = shape[:-1]
    return fill(rng, shape)


def random_convention(rng, name, version, deprecated, upgrade_from=None):
    """Return a list of (key, entry) in shuffled order."""
    datatype = rng.choice(["FIR", "TF", "FIR-E", "TF-E", "SOS"])
    room = rng.choice(["free field", "reverberant", "free field"])
    e = base_globals(name, version, datatype, room,
                     sofa_version=rng.choice(["1.0", "2.0", "2.1"]))
    if room == "reverberant":
        e["GLOBAL:RoomDescription"] = ent("", "m")
    sizes = {"M": 1, "R": rng.choice([1, 1, 2, 3]), "E": rng.choice([1, 1, 2]),
             "N": 6 if datatype == "SOS" else rng.choice([1, 1, 2, 4]),
             "I": 1, "C": 3}

    def pos(key, dims, n, flags="m"):
        types = ["cartesian", "spherical"]
        if key in SH:
            types.append("spherical harmonics")
        typ = rng.choice(types)
        value = fill(rng, [n, 3]) if n > 1 else fill(rng, [3])
        position(e, key, value, flags, dims, typ,
                 "metre" if typ == "cartesian" else "degree, degree, metre")

    pos("ListenerPosition", rng.choice(["IC, MC", "IC", "MC, IC"]), 1)
    pos("ReceiverPosition", rng.choice(["rCI, rCM", "rCI", "rC, rCM"]),
        sizes["R"])
    pos("SourcePosition", "IC, MC", 1)
    pos("EmitterPosition", rng.choice(["eCI, eCM", "eCI, eCM, ECM"]),
        sizes["E"])
    if rng.random() < .6:
        flags = rng.choice(["m", None])
        pos("ListenerView", "IC, MC", 1, flags)
        e["ListenerUp"] = ent([0, 0, 1], flags, "IC, MC", "double")
    data_dims = {"FIR": ["mRn"], "TF": ["mRn"], "SOS": ["mRn"],
                 "FIR-E": ["mRne", "mREn"],
                 "TF-E": ["mRnE", "mRne"]}[datatype]
    dims = rng.choice(data_dims)
    ref = [sizes[d.upper()] for d in dims]
    value = fill(rng, ref) if max(ref) > 1 else rng.choice([0, [0], 1])
    delay_dims = "IR, MR" if not datatype.endswith("E") \
        else rng.choice(["IRI, MRI", "IRI, MRI, IRE, MRE"])
    if datatype.startswith("FIR") or datatype == "SOS":
        e["Data.IR" if datatype != "SOS" else "Data.SOS"] = ent(
            value, "m", dims, "double")
        e["Data.SamplingRate"] = ent(48000, "m", rng.choice(["I", "I, M"]),
                                     "double", "Sampling rate")
        e["Data.SamplingRate:Units"] = ent("hertz", "m")
        e["Data.Delay"] = ent(default_for(rng, delay_dims, sizes, False),
                              "m", delay_dims, "double")
    else:
        e["N"] = ent(fill(rng, [sizes["N"]]) if sizes["N"] > 1 else 0,
                     "m", "N", "double", "Frequency values")
        e["N:LongName"] = ent("frequency", None)
        e["N:Units"] = ent("hertz", "m")
        e["Data.Real"] = ent(value, "m", dims, "double")
        e["Data.Imag"] = ent(fill(rng, ref) if max(ref) > 1 else 0, "m",
                             dims, "double")

    # entries that are subject to the extra rules
    if rng.random() < .5:
        e["GLOBAL:Studio"] = ent("room 1", rng.choice(["m", "rm", None]))
        if e["GLOBAL:Studio"]["flags"] and rng.random() < .7:
            e["Speed"] = ent(1, "m", "I, M", "double")
            e["Speed:Units"] = ent("metre, second", "m")
    if rng.random() < .5:
        e["GLOBAL:Weather"] = ent("sunny", rng.choice(["m", None]))
        if rng.random() < .6:
            e["Rainfall"] = ent(0, None, "I, M", "double")
            e["Rainfall:Units"] = ent("metre", None)
    if rng.random() < .5:
        e["GLOBAL:Layout"] = ent(
            "line" if sizes["R"] < 3 else "free", "m")
        e["GLOBAL:LayoutNote"] = ent("dense", None)
    for key in rng.sample(["Operator", "Funding"], rng.randint(0, 2)):
        e["GLOBAL:" + key] = ent(rng.choice(["", "somebody"]),
                                 rng.choice(["m", "r", "rm", None]))

    # arbitrary variables
    words = rng.sample(WORDS, rng.randint(1, 5))
    for word in words:
        flags = rng.choice(["m", None, None, "m", "rm", "r"])
        string = rng.random() < .35
        dims = rng.choice(STRING_DIMS if string else NUMERIC_DIMS)
        e[word] = ent(default_for(rng, dims, sizes, string), flags, dims,
                      "string" if string else "double",
                      rng.choice(["", "Some remark", "50% of it"]))
        if rng.random() < .5:
            e[word + ":LongName"] = ent(
                rng.choice(["", "long name"]),
                flags if flags is None else rng.choice([flags, None]))
    return shuffled(rng, e), sizes


def shuffled(rng, e):
    glob = [k for k in e if k.startswith("GLOBAL")]
    rest = [k for k in e if not k.startswith("GLOBAL")]
    if rng.random() < .5:
        rng.shuffle(rest)
    return {k: e[k] for k in glob + rest}


def move_axis(dims, source, destination):
    axes = list(dims)
    axis = axes.pop(source)
    axes.insert(destination, axis)
    return "".join(axes)


def derive(rng, e, name, version, sizes):
    """A newer convention that can be reached from `e`, and the rule."""
    new = {k: dict(v) for k, v in e.items()}
    new["GLOBAL:SOFAConventions"]["default"] = name
    new["GLOBAL:SOFAConventionsVersion"]["default"] = version
    new["GLOBAL:Version"]["default"] = "2.1"
    move, remove = {}, []
    free = [w for w in WORDS if w not in e]
    for key in [k for k in list(e) if k in WORDS]:
        attrs = [k for k in e if k.startswith(key + ":")]
        action = rng.choice(["keep", "keep", "move", "axis", "remove"])
        if action == "remove":
            remove += [key] + attrs
            for k in [key] + attrs:
                del new[k]
        elif action == "move" and free:
            target = free.pop()
            entry = new.pop(key)
            move[key] = {"target": target, "moveaxis": None,
                         "deprecated_dimensions": None}
            new[target] = entry
            for k in attrs:
                target_k = target + k[len(key):]
                new[target_k] = new.pop(k)
                move[k] = {"target": target_k, "moveaxis": None,
                           "deprecated_dimensions": None}
        elif action == "axis" and e[key]["type"] == "double" \
                and len(e[key]["dimensions"].split(", ")[0]) > 1:
            n = len(e[key]["dimensions"].split(", ")[0])
            a = rng.randrange(n)
            b = rng.choice([i for i in range(n) if i != a])
            entry = new[key]
            entry["dimensions"] = ", ".join(
                move_axis(d, a, b) for d in e[key]["dimensions"].split(", "))
            entry["default"] = 0 if set(shape_of(entry["default"])) <= {1} \
                else default_for(rng, entry["dimensions"], sizes, False)
            target = key
            if free and rng.random() < .3:
                target = free.pop()
                new[target] = new.pop(key)
                for k in attrs:
                    new[target + k[len(key):]] = new.pop(k)
                    move[k] = {"target": target + k[len(key):],
                               "moveaxis": None,
                               "deprecated_dimensions": None}
            move[key] = {"target": target, "moveaxis": [a, b],
                         "deprecated_dimensions": rng.choice(
                             [None, ["I"], ["I", "M"]])}
    for key in ("GLOBAL:Funding", "GLOBAL:Operator"):
        if key in e and rng.random() < .4:
            if rng.random() < .5:
                del new[key]
                remove.append(key)
            else:
                target = "GLOBAL:New" + key[7:]
                new[target] = new.pop(key)
                move[key] = {"target": target, "moveaxis": None,
                             "deprecated_dimensions": None}
    # the data are stored differently
    if "Data.IR" in e and e["Data.IR"]["dimensions"] == "mREn":
        new["Data.IR"]["dimensions"] = "mRne"
        new["Data.IR"]["default"] = fill(
            rng, [1, sizes["R"], sizes["N"], sizes["E"]])
        move["Data.IR"] = {"target": "Data.IR", "moveaxis": [2, 3],
                           "deprecated_dimensions": None}
    # new entries
    for _ in range(rng.randint(0, 2)):
        if free:
            key = free.pop()
            dims = rng.choice(NUMERIC_DIMS)
            flags = rng.choice(["m", None, "rm"])
            # (the added default has to fit data of any size)
            dims = rng.choice(["I", "I, M", "IC, MC"]) if flags else dims
            new[key] = ent(default_for(rng, dims.split(", ")[0], sizes,
                                       False), flags, dims, "double")
    new["GLOBAL:NewNote"] = ent("a new note", "m")
    rule = {"move": move, "remove": remove,
            "message": rng.choice([None, "Check the new data."])}
    return shuffled(rng, new), rule


class World:
    """One configuration: conventions and rule files."""

    def __init__(self, seed=0, generated=6):
        rng = random.Random(seed)
        self.seed = seed
        self.conventions = realistic()
        self.rules = extra_rules(rules(self.conventions))
        self.aliases = dict(UNIT_ALIASES)
        self.deprecations = deprecations()
        self.upgrades = upgrades()
        self.version = VERSION
        for i in range(generated):
            self._generate(rng, i)
        self.by_name = {}
        for name, version, deprecated, entries in self.conventions:
            self.by_name.setdefault(name, {})[version] = entries

    def _generate(self, rng, i):
        stem = f"Gen{chr(65 + i)}"
        names = [stem, stem + "Long", stem + "-E"]
        name = rng.choice(names)
        versions = rng.sample(["0.3", "0.9", "1.0", "1.1", "1.2", "2.0",
                               "2.1", "9.0", "10.0"], rng.randint(2, 3))
        versions.sort(key=float)
        spec = self.rules["GLOBAL:SOFAConventions"]["specific"]
        allowed = self.rules["GLOBAL:SOFAConventions"]["value"]
        e, sizes = random_convention(rng, name, versions[0], False)
        chain = [(name, versions[0], e)]
        by_name = rng.random() < .4
        for version in versions[1:]:
            new_name = name
            if by_name and len(chain) == 1:
                new_name = rng.choice([n for n in names if n != name])
            elif len(chain) > 1:
                new_name = chain[-1][0]
            e, rule = derive(rng, e, new_name, version, sizes)
            old_name, old_version = chain[-1][:2]
            up = self.upgrades.setdefault(old_name, {"from_to": []})
            rule_id = f"upgrade_{len(up['from_to']) + 1}"
            # (rules are in no particular order and may list versions that
            # are not installed)
            old = [old_version] + rng.sample(
                ["0.05", "0.1", "0.2", "1.05", "11.0"], rng.randint(0, 2))
            rng.shuffle(old)
            up["from_to"].insert(
                rng.randint(0, len(up["from_to"])),
                [old, [f"{new_name}_{version}"], rule_id])
            up[rule_id] = rule
            chain.append((new_name, version, e))
        if by_name:
            self.deprecations["GLOBAL:SOFAConventions"][name] = chain[1][0]
        # a convention that only shares the beginning of the name
        unused = [n for n in names if n not in [c[0] for c in chain]]
        if rng.random() < .5:
            other, _ = random_convention(rng, unused[0], "1.0", False)
            chain.append((unused[0], "1.0", other))
        for name, version, e in chain:
            deprecated = name in \
                self.deprecations["GLOBAL:SOFAConventions"] or any(
                    version in f[0] for f in self.upgrades.get(
                        name, {"from_to": []})["from_to"])
            self.conventions.append((name, version, deprecated, e))
            if name not in allowed:
                allowed.append(name)
            c = spec.setdefault(name, {"GLOBAL:DataType": []})
            datatype = e["GLOBAL:DataType"]["default"]
            if datatype not in c["GLOBAL:DataType"]:
                c["GLOBAL:DataType"].append(datatype)

    def latest(self, name):
        return max(self.by_name[name], key=float)

    def install(self, base):
        conv_dir = os.path.join(base, "conventions")
        os.makedirs(os.path.join(conv_dir, "deprecated"), exist_ok=True)
        os.makedirs(os.path.join(base, "rules"), exist_ok=True)
        for name, version, deprecated, entries in self.conventions:
            folder = os.path.join(conv_dir, "deprecated") if deprecated \
                else conv_dir
            with open(os.path.join(
                    folder, f"{name}_{version}.json"), "w") as f:
                json.dump(entries, f, indent=4)
        for name, content in (
                ("rules", self.rules), ("unit_aliases", self.aliases),
                ("deprecations", self.deprecations),
                ("upgrade", self.upgrades)):
            with open(os.path.join(base, "rules", name + ".json"), "w") as f:
                json.dump(content, f, indent=4)
        with open(os.path.join(base, "VERSION"), "w") as f:
            f.write(self.version)
