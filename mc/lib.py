"""Translate between reference values (tuples) and the library's objects."""
import loader

def load(shims=None):
    loader.load(shims, ["snmp"])
    import snmp.smi, snmp.pdu, snmp.ber, snmp.asn1, snmp.exception
    import snmp.message, snmp.utils
    return Lib(snmp)

class Lib:
    def __init__(self, snmp):
        self.snmp = snmp
        smi, pdu = snmp.smi, snmp.pdu
        self.smi, self.pdu, self.ber = smi, pdu, snmp.ber
        self.exc = snmp.exception
        self.ParseError = snmp.ber.ParseError
        self.Incoming = snmp.exception.IncomingMessageError
        self.cls = {
            "int": smi.Integer32, "str": smi.OctetString, "null": smi.Null,
            "oid": smi.OID, "ip": smi.IpAddress, "c32": smi.Counter32,
            "g32": smi.Gauge32, "tt": smi.TimeTicks, "opq": smi.Opaque,
            "c64": smi.Counter64, "nso": pdu.NoSuchObject,
            "nsi": pdu.NoSuchInstance, "eomv": pdu.EndOfMibView,
        }
        self.kind = {c: k for k, c in self.cls.items()}

    def value(self, v):
        kind = v[0]
        cls = self.cls[kind]
        if kind == "oid":
            return cls(*v[1])
        if kind == "ip":
            return cls(".".join(str(b) for b in v[1]))
        return cls(*v[1:])

    def unvalue(self, obj):
        kind = self.kind.get(type(obj))
        if kind is None:
            return ("?", type(obj).__name__)
        if kind == "oid":
            return ("oid", tuple(obj))
        if kind in ("str", "ip", "opq"):
            return (kind, bytes(obj.data))
        if kind in ("null", "nso", "nsi", "eomv"):
            return (kind,)
        return (kind, obj.value)

    def varbinds(self, vbs):
        VarBind, OID = self.pdu.VarBind, self.smi.OID
        return [VarBind(OID(*n), self.value(v)) for n, v in vbs]

    def unvarbinds(self, vbl):
        return [(tuple(vb.name), self.unvalue(vb.value)) for vb in vbl]
