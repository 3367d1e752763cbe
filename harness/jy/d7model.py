# Abstraction between the real pyd7a objects and the token lists of the TLA+ specification.
#   project(obj) : object  -> tokens (only public attributes are read)
#   build(tokens): tokens  -> object (only public constructors are called)
# A token is [name, [ints]]; wide integers become fixed-width big-endian octet lists.
# Python 2.7 / Jython.
from d7a.alp.command import Command
from d7a.alp.interface import InterfaceType
from d7a.alp.regular_action import RegularAction
from d7a.alp.forward_action import ForwardAction
from d7a.alp.indirect_forward_action import IndirectForwardAction
from d7a.alp.status_action import StatusAction, StatusActionOperandExtensions
from d7a.alp.tag_request_action import TagRequestAction
from d7a.alp.tag_response_action import TagResponseAction
from d7a.alp.operands.file import Data, DataRequest, FileIdOperand
from d7a.alp.operands.file_header import FileHeaderOperand
from d7a.alp.operands.indirect_interface_operand import IndirectInterfaceOperand
from d7a.alp.operands.interface_configuration import InterfaceConfiguration
from d7a.alp.operands.interface_status import InterfaceStatusOperand
from d7a.alp.operands.length import Length
from d7a.alp.operands.lorawan_interface_configuration_abp import LoRaWANInterfaceConfigurationABP
from d7a.alp.operands.lorawan_interface_configuration_otaa import LoRaWANInterfaceConfigurationOTAA
from d7a.alp.operands.offset import Offset
from d7a.alp.operands.query import QueryOperand, QueryType, ArithComparisonType, ArithQueryParams
from d7a.alp.operands.tag_id import TagId
from d7a.alp.operations.break_query import BreakQuery
from d7a.alp.operations.file_management import CreateNewFile
from d7a.alp.operations.forward import Forward
from d7a.alp.operations.indirect_forward import IndirectForward
from d7a.alp.operations.nop import NoOperation
from d7a.alp.operations.requests import ReadFileData, ReadFileHeader
from d7a.alp.operations.responses import ReturnFileData, ReturnFileHeader
from d7a.alp.operations.status import InterfaceStatus
from d7a.alp.operations.tag_request import TagRequest
from d7a.alp.operations.tag_response import TagResponse
from d7a.alp.operations.write_operations import WriteFileData, WriteFileHeader
from d7a.d7anp.addressee import Addressee, IdType, NlsMethod
from d7a.fs.file_header import FileHeader
from d7a.fs.file_permissions import FilePermissions
from d7a.fs.file_properties import FileProperties, ActionCondition, StorageClass
from d7a.phy.channel_header import ChannelHeader, ChannelCoding, ChannelClass, ChannelBand
from d7a.phy.channel_id import ChannelID
from d7a.sp.configuration import Configuration
from d7a.sp.qos import QoS, ResponseMode, RetryMode
from d7a.sp.status import Status
from d7a.types.ct import CT


class Odd(Exception):
  """The object has a shape the abstraction does not know."""


def b(v):
  if v is True or v is False: return int(v)
  raise Odd("not a boolean: %r" % (v,))

def i(v):
  if v is True or v is False or not isinstance(v, (int, long)): raise Odd("not an integer: %r" % (v,))
  if not -2**30 <= v < 2**30: raise Odd("integer out of range: %r" % (v,))
  return int(v)

def limbs(v, n):
  if v is True or v is False or not isinstance(v, (int, long)): raise Odd("not an integer: %r" % (v,))
  if v < 0 or v >= 1 << (8 * n): raise Odd("integer out of range: %r" % (v,))
  return [int((v >> (8 * (n - 1 - k))) & 0xFF) for k in range(n)]

def unlimbs(l):
  if isinstance(l, Wrong): return l.o
  if len(l) == 1 and l[0] < 0: return l[0]
  v = 0
  for x in l: v = v * 256 + x
  return v

def octets(l):
  return [i(x) for x in l]


# ------------------------------------------------------------------ building blocks: projection
def p_ct(p, o):
  return [[p + ".exp", [i(o.exp)]], [p + ".mant", [i(o.mant)]]]

def p_addressee(p, o):
  t = [[p + ".idtype", [i(o.id_type.value)]], [p + ".nls", [i(o.nls_method.value)]], [p + ".ac", [i(o.access_class)]]]
  if o.id_type == IdType.NBID: t += p_ct(p + ".nbid", o.id)
  elif o.id_type == IdType.UID: t += [[p + ".id", limbs(o.id, 8)]]
  elif o.id_type == IdType.VID: t += [[p + ".id", limbs(o.id, 2)]]
  elif o.id is not None: raise Odd("NOID with an id")
  return t

def p_qos(p, o):
  return [[p + ".stop", [b(o.stop_on_err)]], [p + ".record", [b(o.record)]],
          [p + ".retry", [i(o.retry_mod.value)]], [p + ".resp", [i(o.resp_mod.value)]]]

def p_configuration(p, o):
  return p_qos(p + ".qos", o.qos) + p_ct(p + ".dorm", o.dorm_to) + p_addressee(p + ".addr", o.addressee)

def p_lora(p, o):
  return [[p + ".adr", [b(o.adr_enabled)]], [p + ".ack", [b(o.request_ack)]],
          [p + ".port", [i(o.app_port)]], [p + ".dr", [i(o.data_rate)]]]

def p_ifconfig(p, o):
  t = [[p + ".iface", [i(o.interface_id.value)]]]
  c = o.interface_configuration
  if o.interface_id == InterfaceType.D7ASP:
    if not isinstance(c, Configuration): raise Odd("D7ASP configuration is a %s" % type(c).__name__)
    t += p_configuration(p + ".d7", c)
  elif o.interface_id == InterfaceType.LORAWAN_ABP:
    if not isinstance(c, LoRaWANInterfaceConfigurationABP): raise Odd("ABP configuration is a %s" % type(c).__name__)
    t += p_lora(p + ".abp", c) + [[p + ".abp.devaddr", limbs(c.dev_addr, 4)], [p + ".abp.netid", limbs(c.netw_id, 4)]]
  elif o.interface_id == InterfaceType.LORAWAN_OTAA:
    if not isinstance(c, LoRaWANInterfaceConfigurationOTAA): raise Odd("OTAA configuration is a %s" % type(c).__name__)
    t += p_lora(p + ".otaa", c)
  elif c is not None: raise Odd("configuration on an interface without one")
  return t

def p_chheader(p, o):
  return [[p + ".band", [i(o.channel_band.value)]], [p + ".class", [i(o.channel_class.value)]],
          [p + ".coding", [i(o.channel_coding.value)]]]

def p_chid(p, o):
  return p_chheader(p, o.channel_header) + [[p + ".index", [i(o.channel_index)]]]

def p_fileheader(p, o):
  q = o.permissions
  t = [[p + ".perm.enc", [b(q.encrypted)]], [p + ".perm.exe", [b(q.executable)]],
       [p + ".perm.ur", [b(q.user_readable)]], [p + ".perm.uw", [b(q.user_writeable)]],
       [p + ".perm.ux", [b(q.user_executeable)]], [p + ".perm.gr", [b(q.guest_readable)]],
       [p + ".perm.gw", [b(q.guest_writeable)]], [p + ".perm.gx", [b(q.guest_executeable)]]]
  q = o.properties
  t += [[p + ".prop.act", [b(q.act_enabled)]], [p + ".prop.cond", [i(q.act_condition.value)]],
        [p + ".prop.storage", [i(q.storage_class.value)]]]
  t += [[p + ".alpfid", [i(o.alp_command_file_id)]], [p + ".ifid", [i(o.interface_file_id)]],
        [p + ".size", limbs(o.file_size, 4)], [p + ".alloc", limbs(o.allocated_size, 4)]]
  return t

def p_spstatus(p, o):
  return (p_chid(p + ".ch", o.channel_id) +
          [[p + ".rxlevel", [i(o.rx_level)]], [p + ".lb", [i(o.link_budget)]], [p + ".trl", [i(o.target_rx_level)]],
           [p + ".nlsf", [b(o.nls)]], [p + ".missed", [b(o.missed)]], [p + ".retry", [b(o.retry)]],
           [p + ".ucast", [b(o.unicast)]], [p + ".fifo", [i(o.fifo_token)]], [p + ".seq", [i(o.seq_nr)]]] +
          p_ct(p + ".respto", o.response_to) + p_addressee(p + ".addr", o.addressee))

def p_offset(p, o):
  return [[p + ".fid", [i(o.id)]], [p + ".off", [i(o.offset.value)]]]


# ------------------------------------------------------------------ actions and commands: projection
BODY_OPS = {1: ReadFileData, 2: ReadFileHeader, 4: WriteFileData, 6: WriteFileHeader, 9: BreakQuery, 17: CreateNewFile,
            32: ReturnFileData, 33: ReturnFileHeader, 50: Forward, 51: IndirectForward, 0: NoOperation}

def p_action(a):
  op = i(a.op)
  if op not in BODY_OPS: raise Odd("unexpected action op %d" % op)
  if not isinstance(a.operation, BODY_OPS[op]): raise Odd("op %d carried by %s" % (op, type(a.operation).__name__))
  o = a.operand
  if op == 50:
    head = [["rfu7", [0]], ["resp", [b(a.resp)]]]
  elif op == 51:
    head = [["overload", [b(a.overload)]], ["resp", [b(a.resp)]]]
  else:
    head = [["group", [b(a.group)]], ["resp", [b(a.resp)]]]
  t = head + [["op", [op]]]
  if op == 1: t += p_offset("o", o.offset) + [["len", [i(o.length.value)]]]
  elif op in (4, 32): t += p_offset("o", o.offset) + [["len", [i(o.length.value)]], ["data", octets(o.data)]]
  elif op == 2: t += [["fid", [i(o.file_id)]]]
  elif op in (6, 17, 33): t += [["fid", [i(o.file_id)]]] + p_fileheader("h", o.file_header)
  elif op == 9:
    t += [["q.type", [i(o.type.value)]], ["q.mask", [b(o.mask_present)]],
          ["q.signed", [b(o.params.signed_data_type)]], ["q.comp", [i(o.params.comp_type.value)]],
          ["q.clen", [i(o.compare_length.value)]], ["q.cval", octets(o.compare_value)]] + p_offset("q", o.file_a_offset)
  elif op == 50: t += p_ifconfig("f", o)
  elif op == 51:
    t += [["ifile", [i(o.interface_file_id)]]]
    if o.interface_configuration_overload is not None: t += p_addressee("a", o.interface_configuration_overload)
  return t

def p_ifstatus(a):
  o = a.operand
  t = [["iface", [i(o.interface_id)]]]
  if o.interface_status is not None: t += p_spstatus("st", o.interface_status)
  return t

def p_cmd(c):
  return {
    "tag": [] if c.tag_id is None else [i(c.tag_id)],
    "send": b(c.send_tag_response_when_completed),
    "done": b(c.execution_completed),
    "err": [b(c.completed_with_error)] if getattr(c, "completed_with_error", None) is not None else [],
    "status": [] if c.interface_status is None else p_ifstatus(c.interface_status),
    "actions": [p_action(a) for a in c.actions],
  }


# ------------------------------------------------------------------ building
import enum
class Foreign(enum.Enum):
  MEMBER = 1

class Wrong(object):
  """a value of another kind than an integer"""
  def __init__(self, o): self.o = o
  def __getitem__(self, k):
    if k: raise IndexError()
    return self.o
KINDS = {"none": lambda v: None, "text": lambda v: str(v), "half": lambda v: v + 0.5, "list": lambda v: [v], "dict": lambda v: {"v": v}, "empty": lambda v: "",
         "char": lambda v: chr(v % 256), "unicode": lambda v: unichr(v % 256), "object": lambda v: Length(v % 1000), "enum": lambda v: Foreign.MEMBER, "class": lambda v: int}

class T(object):
  """token reader"""
  def __init__(self, toks, wrong=None):
    self.d = dict((t[0], t[1]) for t in toks)
    if wrong:
      n, kind = wrong
      if kind.startswith("elem."): # one element of a list
        l = self.d[n]
        k = len(l) // 2
        self.d[n] = l[:k] + [KINDS[kind[5:]](l[k])] + l[k + 1:]
      else: self.d[n] = Wrong(KINDS[kind](unlimbs(self.d[n])))
  def v(self, n): return self.d[n][0]
  def l(self, n): return self.d[n]
  def has(self, n): return n in self.d
  def boo(self, n):
    v = self.v(n)
    return (v == 1) if isinstance(v, (int, long)) and v in (0, 1) else v

def EN(cls, v):
  """the enumeration member, or the bare number when there is none"""
  try: return cls(v)
  except ValueError: return v

def mk_ct(t, p): return CT(exp=t.v(p + ".exp"), mant=t.v(p + ".mant"))

def mk_addressee(t, p):
  ident = None
  if t.has(p + ".id"): ident = unlimbs(t.l(p + ".id"))
  elif t.has(p + ".nbid.exp"): ident = mk_ct(t, p + ".nbid")
  return Addressee(access_class=t.v(p + ".ac"), id_type=EN(IdType, t.v(p + ".idtype")), id=ident, nls_method=EN(NlsMethod, t.v(p + ".nls")))

def mk_qos(t, p):
  return QoS(resp_mod=EN(ResponseMode, t.v(p + ".resp")), retry_mod=EN(RetryMode, t.v(p + ".retry")),
             stop_on_err=t.boo(p + ".stop"), record=t.boo(p + ".record"))

def mk_configuration(t, p):
  return Configuration(qos=mk_qos(t, p + ".qos"), dorm_to=mk_ct(t, p + ".dorm"), addressee=mk_addressee(t, p + ".addr"))

def mk_ifcfg(t, p):
  """-> (InterfaceType, configuration or None)"""
  iface = EN(InterfaceType, t.v(p + ".iface"))
  cfg = None
  if iface == InterfaceType.D7ASP: cfg = mk_configuration(t, p + ".d7")
  elif iface == InterfaceType.LORAWAN_ABP:
    q = p + ".abp"
    cfg = LoRaWANInterfaceConfigurationABP(adr_enabled=t.boo(q + ".adr"), request_ack=t.boo(q + ".ack"), app_port=t.v(q + ".port"),
              data_rate=t.v(q + ".dr"), dev_addr=unlimbs(t.l(q + ".devaddr")), netw_id=unlimbs(t.l(q + ".netid")))
  elif iface == InterfaceType.LORAWAN_OTAA:
    q = p + ".otaa"
    cfg = LoRaWANInterfaceConfigurationOTAA(adr_enabled=t.boo(q + ".adr"), request_ack=t.boo(q + ".ack"), app_port=t.v(q + ".port"),
              data_rate=t.v(q + ".dr"))
  return iface, cfg

def mk_chheader(t, p):
  return ChannelHeader(channel_coding=EN(ChannelCoding, t.v(p + ".coding")), channel_class=EN(ChannelClass, t.v(p + ".class")),
                       channel_band=EN(ChannelBand, t.v(p + ".band")))

def mk_chid(t, p):
  return ChannelID(channel_header=mk_chheader(t, p), channel_index=t.v(p + ".index"))

def mk_fileheader(t, p):
  q = p + ".perm"
  perm = FilePermissions(encrypted=t.boo(q + ".enc"), executeable=t.boo(q + ".exe"), user_readable=t.boo(q + ".ur"),
           user_writeable=t.boo(q + ".uw"), user_executeable=t.boo(q + ".ux"), guest_readable=t.boo(q + ".gr"),
           guest_writeable=t.boo(q + ".gw"), guest_executeable=t.boo(q + ".gx"))
  q = p + ".prop"
  prop = FileProperties(act_enabled=t.boo(q + ".act"), act_condition=EN(ActionCondition, t.v(q + ".cond")),
           storage_class=EN(StorageClass, t.v(q + ".storage")))
  return FileHeader(permissions=perm, properties=prop, alp_command_file_id=t.v(p + ".alpfid"), interface_file_id=t.v(p + ".ifid"),
           file_size=unlimbs(t.l(p + ".size")), allocated_size=unlimbs(t.l(p + ".alloc")))

def mk_offset(t, p):
  return Offset(id=t.v(p + ".fid"), offset=Length(t.v(p + ".off")))

def mk_spstatus(t, p):
  return Status(channel_id=mk_chid(t, p + ".ch"), rx_level=t.v(p + ".rxlevel"), link_budget=t.v(p + ".lb"),
                target_rx_level=t.v(p + ".trl"), nls=t.boo(p + ".nlsf"), missed=t.boo(p + ".missed"), retry=t.boo(p + ".retry"),
                unicast=t.boo(p + ".ucast"), fifo_token=t.v(p + ".fifo"), seq_nr=t.v(p + ".seq"),
                response_to=mk_ct(t, p + ".respto"), addressee=mk_addressee(t, p + ".addr"))

def mk_action(toks, wrong=None):
  t = T(toks, wrong)
  op = t.v("op")
  if op == 35: return TagResponseAction(eop=t.boo("eop"), error=t.boo("error"), operation=TagResponse(operand=TagId(t.v("tag"))))
  if op == 52: return TagRequestAction(respond_when_completed=t.boo("respond"), operation=TagRequest(operand=TagId(t.v("tag"))))
  if op == 50:
    iface, cfg = mk_ifcfg(t, "f")
    return ForwardAction(resp=t.boo("resp"), operation=Forward(operand=InterfaceConfiguration(interface_id=iface, interface_configuration=cfg)))
  if op == 51:
    over = mk_addressee(t, "a") if t.has("a.idtype") else None
    return IndirectForwardAction(overload=t.boo("overload"), resp=t.boo("resp"), operation=IndirectForward(
      operand=IndirectInterfaceOperand(interface_file_id=t.v("ifile"), interface_configuration_overload=over)))
  if op == 0: o = NoOperation()
  elif op == 1: o = ReadFileData(operand=DataRequest(length=t.v("len"), offset=mk_offset(t, "o")))
  elif op == 2: o = ReadFileHeader(operand=FileIdOperand(t.v("fid")))
  elif op == 4: o = WriteFileData(operand=Data(data=list(t.l("data")), offset=mk_offset(t, "o")))
  elif op == 32: o = ReturnFileData(operand=Data(data=list(t.l("data")), offset=mk_offset(t, "o")))
  elif op in (6, 17, 33):
    cls = {6: WriteFileHeader, 17: CreateNewFile, 33: ReturnFileHeader}[op]
    o = cls(operand=FileHeaderOperand(file_id=t.v("fid"), file_header=mk_fileheader(t, "h")))
  elif op == 9:
    o = BreakQuery(operand=QueryOperand(type=EN(QueryType, t.v("q.type")), mask_present=t.boo("q.mask"),
          params=ArithQueryParams(t.boo("q.signed"), EN(ArithComparisonType, t.v("q.comp"))),
          compare_length=Length(t.v("q.clen")), compare_value=list(t.l("q.cval")), file_a_offset=mk_offset(t, "q")))
  else: raise Odd("cannot build op %d" % op)
  return RegularAction(group=t.boo("group"), resp=t.boo("resp"), operation=o)

def mk_ifstatus(toks):
  t = T(toks)
  st = mk_spstatus(t, "st") if len(toks) > 1 else None
  return StatusAction(operation=InterfaceStatus(operand=InterfaceStatusOperand(interface_id=t.v("iface"), interface_status=st)),
                      status_operand_extension=StatusActionOperandExtensions.INTERFACE_STATUS)


# ------------------------------------------------------------------ stand-alone structures and system files
from d7a.dll.access_profile import AccessProfile
from d7a.dll.sub_profile import SubProfile
from d7a.phy.subband import SubBand
from d7a.phy.channel_status_identifier import ChannelStatusIdentifier, Bandwidth
from d7a.system_files.access_profile import AccessProfileFile
from d7a.system_files.dll_config import DllConfigFile
from d7a.system_files.dll_status import DllStatusFile
from d7a.system_files.engineering_mode import EngineeringModeFile, EngineeringModeMode
from d7a.system_files.factory_settings import FactorySettingsFile
from d7a.system_files.firmware_version import FirmwareVersionFile
from d7a.system_files.interface_configuration import InterfaceConfigurationFile
from d7a.system_files.not_implemented import NotImplementedFile
from d7a.system_files.phy_status import PhyStatusFile
from d7a.system_files.root_authentication_key import RootAuthenticationKeyFile
from d7a.system_files.security_key import SecurityKeyFile
from d7a.system_files.uid import UidFile
from d7a.system_files.user_authentication_key import UserAuthenticationKeyFile
from d7a.system_files.vid import VidFile
from d7a.dll.foreground_frame_control import ForegroundFrameControl
from d7a.dll.background_frame_control import BackgroundFrameControl
from d7a.d7anp.control import Control as NpControl
from d7a.d7atp.control import Control as TpControl

def p_chstatus(p, o):
  return [[p + ".band", [i(o.channel_band.value)]], [p + ".bw", [i(o.channel_bandwidth.value)]], [p + ".index", [i(o.channel_index)]]]

def mk_chstatus(t, p):
  return ChannelStatusIdentifier(channel_band=EN(ChannelBand, t.v(p + ".band")), channel_bandwidth=EN(Bandwidth, t.v(p + ".bw")), channel_index=t.v(p + ".index"))

def p_subband(p, o):
  return [[p + ".start", [i(o.channel_index_start)]], [p + ".end", [i(o.channel_index_end)]], [p + ".eirp", [i(o.eirp)]],
          [p + ".cca", [i(o.cca)]], [p + ".duty", [i(o.duty)]]]

def mk_subband(t, p):
  return SubBand(channel_index_start=t.v(p + ".start"), channel_index_end=t.v(p + ".end"), eirp=t.v(p + ".eirp"), cca=t.v(p + ".cca"), duty=t.v(p + ".duty"))

def p_subprofile(p, o): return [[p + ".bitmap", [i(o.subband_bitmap)]]] + p_ct(p + ".period", o.scan_automation_period)
def mk_subprofile(t, p): return SubProfile(subband_bitmap=t.v(p + ".bitmap"), scan_automation_period=mk_ct(t, p + ".period"))

def p_accessprofile(p, o):
  r = p_chheader(p + ".ch", o.channel_header)
  for k, x in enumerate(o.sub_profiles): r += p_subprofile("%s.sp%d" % (p, k + 1), x)
  for k, x in enumerate(o.sub_bands): r += p_subband("%s.sb%d" % (p, k + 1), x)
  return r

def mk_accessprofile(t, p):
  sp, sb = [], []
  while t.has("%s.sp%d.bitmap" % (p, len(sp) + 1)): sp.append(mk_subprofile(t, "%s.sp%d" % (p, len(sp) + 1)))
  while t.has("%s.sb%d.start" % (p, len(sb) + 1)): sb.append(mk_subband(t, "%s.sb%d" % (p, len(sb) + 1)))
  return AccessProfile(channel_header=mk_chheader(t, p + ".ch"), sub_profiles=sp, sub_bands=sb)

def p_perm(p, q):
  return [[p + ".enc", [b(q.encrypted)]], [p + ".exe", [b(q.executable)]], [p + ".ur", [b(q.user_readable)]], [p + ".uw", [b(q.user_writeable)]],
          [p + ".ux", [b(q.user_executeable)]], [p + ".gr", [b(q.guest_readable)]], [p + ".gw", [b(q.guest_writeable)]], [p + ".gx", [b(q.guest_executeable)]]]
def mk_perm(t, q):
  return FilePermissions(encrypted=t.boo(q + ".enc"), executeable=t.boo(q + ".exe"), user_readable=t.boo(q + ".ur"), user_writeable=t.boo(q + ".uw"),
           user_executeable=t.boo(q + ".ux"), guest_readable=t.boo(q + ".gr"), guest_writeable=t.boo(q + ".gw"), guest_executeable=t.boo(q + ".gx"))
def p_prop(p, q):
  return [[p + ".act", [b(q.act_enabled)]], [p + ".cond", [i(q.act_condition.value)]], [p + ".storage", [i(q.storage_class.value)]]]
def mk_prop(t, q):
  return FileProperties(act_enabled=t.boo(q + ".act"), act_condition=EN(ActionCondition, t.v(q + ".cond")), storage_class=EN(StorageClass, t.v(q + ".storage")))

def p_abp(p, c): return p_lora(p, c) + [[p + ".devaddr", limbs(c.dev_addr, 4)], [p + ".netid", limbs(c.netw_id, 4)]]
def mk_abp(t, q):
  return LoRaWANInterfaceConfigurationABP(adr_enabled=t.boo(q + ".adr"), request_ack=t.boo(q + ".ack"), app_port=t.v(q + ".port"),
           data_rate=t.v(q + ".dr"), dev_addr=unlimbs(t.l(q + ".devaddr")), netw_id=unlimbs(t.l(q + ".netid")))
def mk_otaa(t, q):
  return LoRaWANInterfaceConfigurationOTAA(adr_enabled=t.boo(q + ".adr"), request_ack=t.boo(q + ".ack"), app_port=t.v(q + ".port"), data_rate=t.v(q + ".dr"))

def mk_ifconf(t, p):
  iface, cfg = mk_ifcfg(t, p)
  return InterfaceConfigurationFile(interface_configuration=InterfaceConfiguration(interface_id=iface, interface_configuration=cfg))

def p_fgctrl(p, o): return [["idtype", [i(o.id_type.value)]], ["eirp", [i(o.eirp_index)]]]
def mk_fgctrl(t, p): return ForegroundFrameControl(id_type=EN(IdType, t.v("idtype")), eirp_index=t.v("eirp"))
def p_bgctrl(p, o): return [["idtype", [i(o.id_type.value)]], ["tag", [i(o.tag)]]]
def mk_bgctrl(t, p): return BackgroundFrameControl(id_type=EN(IdType, t.v("idtype")), tag=t.v("tag"))
def p_npctrl(p, o):
  return [["noorigin", [b(o.has_no_origin_access_id)]], ["hop", [b(o.has_hopping)]], ["oidtype", [i(o.origin_id_type.value)]], ["nls", [i(o.nls_method.value)]]]
def mk_npctrl(t, p):
  return NpControl(has_no_origin_access_id=t.boo("noorigin"), has_hopping=t.boo("hop"), origin_id_type=EN(IdType, t.v("oidtype")), nls_method=EN(NlsMethod, t.v("nls")))
def p_tpctrl(p, o):
  return [["start", [b(o.is_dialog_start)]], ["tl?", [b(o.has_tl)]], ["te?", [b(o.has_te)]], ["ackreq", [b(o.is_ack_requested)]],
          ["acknv", [b(o.is_ack_not_void)]], ["ackrec", [b(o.is_ack_record_requested)]], ["agc?", [b(o.has_agc)]]]
def mk_tpctrl(t, p):
  return TpControl(is_dialog_start=t.boo("start"), has_tl=t.boo("tl?"), has_te=t.boo("te?"), is_ack_requested=t.boo("ackreq"),
                   is_ack_not_void=t.boo("acknv"), is_ack_record_requested=t.boo("ackrec"), has_agc=t.boo("agc?"))

# name: (prefix, class with parse, projection, builder)
STRUCT = {
  "ct": ("x", CT, p_ct, mk_ct), "addressee": ("x", Addressee, p_addressee, mk_addressee), "qos": ("x", QoS, p_qos, mk_qos),
  "configuration": ("x", Configuration, p_configuration, mk_configuration), "chheader": ("x", ChannelHeader, p_chheader, mk_chheader),
  "chid": ("x", ChannelID, p_chid, mk_chid), "chstatus": ("x", ChannelStatusIdentifier, p_chstatus, mk_chstatus),
  "subband": ("x", SubBand, p_subband, mk_subband), "subprofile": ("x", SubProfile, p_subprofile, mk_subprofile),
  "accessprofile": ("ap", AccessProfile, p_accessprofile, mk_accessprofile), "fileheader": ("x", FileHeader, p_fileheader, mk_fileheader),
  "perm": ("x", FilePermissions, p_perm, mk_perm), "prop": ("x", FileProperties, p_prop, mk_prop), "spstatus": ("x", Status, p_spstatus, mk_spstatus),
  "len": ("x", Length, lambda p, o: [[p, [i(o.value)]]], lambda t, p: Length(t.v(p))), "offset": ("x", Offset, p_offset, mk_offset),
  "abp": ("x", LoRaWANInterfaceConfigurationABP, p_abp, mk_abp), "otaa": ("x", LoRaWANInterfaceConfigurationOTAA, p_lora, mk_otaa),
  "ifconf": ("f", None, None, mk_ifconf), "fgctrl": ("", ForegroundFrameControl, p_fgctrl, mk_fgctrl), "bgctrl": ("", BackgroundFrameControl, p_bgctrl, mk_bgctrl),
  "npctrl": ("", NpControl, p_npctrl, mk_npctrl), "tpctrl": ("", TpControl, p_tpctrl, mk_tpctrl),
}

def text(s, p, n):
  if len(s) != n: raise Odd("text of %d characters" % len(s))
  return [["%s%d" % (p, k + 1), [ord(c)]] for k, c in enumerate(s)]

def untext(t, p, strip):
  s, k = "", 1
  while t.has("%s%d" % (p, k)): s += chr(t.v("%s%d" % (p, k))); k += 1
  return s.rstrip(" ") if strip else s

FACTORY = [("gain", "gain", 0), ("bwlo", "rx_bw_low_rate", 4), ("bwno", "rx_bw_normal_rate", 4), ("bwhi", "rx_bw_high_rate", 4),
  ("brlo", "bitrate_lo_rate", 4), ("fdlo", "fdev_lo_rate", 4), ("brno", "bitrate_normal_rate", 4), ("fdno", "fdev_normal_rate", 4),
  ("brhi", "bitrate_hi_rate", 4), ("fdhi", "fdev_hi_rate", 4), ("pslo", "preamble_size_lo_rate", 0), ("psno", "preamble_size_normal_rate", 0),
  ("pshi", "preamble_size_hi_rate", 0), ("pdlo", "preamble_detector_size_lo_rate", 0), ("pdno", "preamble_detector_size_normal_rate", 0),
  ("pdhi", "preamble_detector_size_hi_rate", 0), ("ptlo", "preamble_tol_lo_rate", 0), ("ptno", "preamble_tol_normal_rate", 0),
  ("pthi", "preamble_tol_hi_rate", 0), ("rssism", "rssi_smoothing", 0), ("rssioff", "rssi_offset", 0), ("lbw", "lora_bw", 4),
  ("lsf", "lora_SF", 0), ("gauss", "gaussian", 0), ("paramp", "paramp", 0)]

def p_factory(o): return [[n, limbs(getattr(o, a), w) if w else [i(getattr(o, a))]] for n, a, w in FACTORY]
def mk_factory(t, q):
  kw = dict((a, unlimbs(t.l(n)) if w else t.v(n)) for n, a, w in FACTORY if n != "rssism")
  if isinstance(t.l("rssism"), Wrong): return FactorySettingsFile(rssi_smoothing=t.v("rssism"), **kw)
  if q.get("smp"): return FactorySettingsFile(rssi_smoothing=q["smp"], **kw)
  o = FactorySettingsFile(**kw)
  o.rssi_smoothing = t.v("rssism")
  return o

def p_firmware(o):
  return [["major", [i(o.d7a_protocol_version_major)]], ["minor", [i(o.d7a_protocol_version_minor)]], ["fmajor", [i(o.filesystem_version_major)]],
          ["fminor", [i(o.filesystem_version_minor)]]] + text(o.application_name, "app", 6) + text(o.git_sha1, "sha", 7)
def mk_firmware(t, q):
  if "name" in q:
    w = {q["name"][0]: KINDS[q["name"][1]](123456)}
    return FirmwareVersionFile(d7a_protocol_version_major=1, d7a_protocol_version_minor=0, filesystem_version_major=1, filesystem_version_minor=0, **w)
  return FirmwareVersionFile(d7a_protocol_version_major=t.v("major"), d7a_protocol_version_minor=t.v("minor"), filesystem_version_major=t.v("fmajor"),
    filesystem_version_minor=t.v("fminor"), application_name=untext(t, "app", q.get("strip")), git_sha1=untext(t, "sha", q.get("strip")))

def p_engmode(o): return [["mode", [i(o.mode.value)]], ["flags", [i(o.flags)]], ["timeout", [i(o.timeout)]]] + p_chid("ch", o.channel_id) + [["eirp", [i(o.eirp)]]]
def mk_engmode(t, q): return EngineeringModeFile(mode=EN(EngineeringModeMode, t.v("mode")), flags=t.v("flags"), timeout=t.v("timeout"), channel_id=mk_chid(t, "ch"), eirp=t.v("eirp"))

def p_phystatus(o):
  r = [["up", limbs(o.up_time, 4)], ["rx", limbs(o.rx_time, 4)], ["tx", limbs(o.tx_time, 4)], ["duty", [i(o.tx_duty_cycle)]], ["n", [i(o.channel_status_list_length)]]]
  if len(o.channel_status_identifier) != o.channel_status_list_length or len(o.channel_noise_floor) != o.channel_status_list_length: raise Odd("list lengths")
  for k in range(o.channel_status_list_length):
    r += p_chstatus("c%d" % (k + 1), o.channel_status_identifier[k]) + [["c%d.nf" % (k + 1), [i(o.channel_noise_floor[k])]]]
  return r
def mk_phystatus(t, q):
  a, n = [], []
  while t.has("c%d.nf" % (len(n) + 1)): a.append(mk_chstatus(t, "c%d" % (len(n) + 1))); n.append(t.v("c%d.nf" % (len(n) + 1)))
  return PhyStatusFile(up_time=unlimbs(t.l("up")), rx_time=unlimbs(t.l("rx")), tx_time=unlimbs(t.l("tx")), tx_duty_cycle=t.v("duty"),
                       channel_status_list_length=t.v("n"), channel_status_identifier=a, channel_noise_floor=n)

def p_dllconfig(o): return [["ac", [i(o.active_access_class)]], ["lq", [i(o.lq_filter)]], ["nf", [i(o.nf_ctrl)]], ["rxnf", [i(o.rx_nf_method_parameter)]], ["txnf", [i(o.tx_nf_method_parameter)]]]
def mk_dllconfig(t, q): return DllConfigFile(active_access_class=t.v("ac"), lq_filter=t.v("lq"), nf_ctrl=t.v("nf"), rx_nf_method_parameter=t.v("rxnf"), tx_nf_method_parameter=t.v("txnf"))

def p_dllstatus(o):
  return [["rxl", [i(o.last_rx_packet_level)]], ["lb", [i(o.last_rx_packet_link_budget)]], ["noise", [i(o.noise_floor)]]] + p_chheader("ch", o.channel_header) + \
         [["index", [i(o.channel_index)]], ["ratio", [i(o.scan_timeout_ratio)]], ["scan", limbs(o.scan_count, 4)], ["scanto", limbs(o.scan_timeout_count, 4)]]
def mk_dllstatus(t, q):
  return DllStatusFile(last_rx_packet_level=t.v("rxl"), last_rx_packet_link_budget=t.v("lb"), noise_floor=t.v("noise"), channel_header=mk_chheader(t, "ch"),
    channel_index=t.v("index"), scan_timeout_ratio=t.v("ratio"), scan_count=unlimbs(t.l("scan")), scan_timeout_count=unlimbs(t.l("scanto")))

def p_key(o): return [["key", limbs(o.key, 16)]]
def mk_access(t, q): return AccessProfileFile(access_specifier=q.get("spec", 0), access_profile=mk_accessprofile(t, "ap"))

FILE = {
  "uid": (UidFile, lambda o: [["uid", limbs(o.uid, 8)]], lambda t, q: UidFile(uid=unlimbs(t.l("uid")))),
  "factory": (FactorySettingsFile, p_factory, mk_factory), "firmware": (FirmwareVersionFile, p_firmware, mk_firmware),
  "engmode": (EngineeringModeFile, p_engmode, mk_engmode),
  "vid": (VidFile, lambda o: [["vid", [i(o.vid)]], ["control", [i(o.control)]]], lambda t, q: VidFile(vid=t.v("vid"), control=t.v("control"))),
  "phystatus": (PhyStatusFile, p_phystatus, mk_phystatus), "dllconfig": (DllConfigFile, p_dllconfig, mk_dllconfig),
  "dllstatus": (DllStatusFile, p_dllstatus, mk_dllstatus),
  "seckey": (SecurityKeyFile, p_key, lambda t, q: SecurityKeyFile(key=unlimbs(t.l("key")))),
  "rootkey": (RootAuthenticationKeyFile, p_key, lambda t, q: RootAuthenticationKeyFile(key=unlimbs(t.l("key")))),
  "userkey": (UserAuthenticationKeyFile, p_key, lambda t, q: UserAuthenticationKeyFile(key=unlimbs(t.l("key")))),
  "access": (AccessProfileFile, lambda o: p_accessprofile("ap", o.access_profile), mk_access),
}
