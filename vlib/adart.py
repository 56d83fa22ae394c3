"""Driver for the primitives of the Ada runtime, generated from the declarations of its packages.

One call per line: <hex of the buffer> <start bit> <procedure> <in and in-out parameters in order>
Answer: r<0|1> p<position> [values of the out parameters] |<hex of the buffer>
        X <exception> <message>   what was raised, assertions of the contracts included"""
import os
import re
import shutil

from .common import REPO, run, CheckError

ADARTL = os.path.join(REPO, "ADA_RTL2")


def procs():
    r = {}
    for f in ("adaasn1rtl-encoding-uper.ads", "adaasn1rtl-encoding-acn.ads"):
        t = re.sub(r"--.*", "", open(os.path.join(ADARTL, "src", f), errors="replace").read())
        for m in re.finditer(r"\bprocedure\s+(\w+)\s*\(([^()]*)\)", t):
            ps = []
            for p in m.group(2).split(";"):
                n, ty = p.split(":", 1)
                w = ty.split(":=")[0].split()
                mode = " ".join(x for x in w if x in ("in", "out")) or "in"
                for x in n.split(","):
                    ps.append((x.strip(), mode, w[-1].split(".")[-1]))
            if ps and any(t == "Bitstream" for _, _, t in ps):
                r.setdefault(m.group(1), ps)
    return r


def spans():
    """procedure -> (file, first and last line of its declaration with its contract)"""
    r = {}
    for f in ("adaasn1rtl-encoding-uper.ads", "adaasn1rtl-encoding-acn.ads"):
        t = re.sub(r"--.*", "", open(os.path.join(ADARTL, "src", f), errors="replace").read())
        ms = list(re.finditer(r"\b(?:procedure|function)\s+(\w+)", t)) 
        for m, nx in zip(ms, ms[1:] + [None]):
            a = t.count("\n", 0, m.start()) + 1
            b = t.count("\n", 0, nx.start() if nx else len(t)) + 1
            r.setdefault(m.group(1), (f, a, b))
    return r


NUM = ("Asn1Int", "Asn1UInt", "Integer", "Natural", "Integer_8", "Integer_16", "Integer_32", "Unsigned_8", "Unsigned_16", "Unsigned_32", "Asn1NullType")
IN = {t: "%s'Value (Tok)" % t for t in NUM}
IN.update({"Asn1Real": "To_Real (Tok)", "OctetBuffer": "To_Octets (Tok)", "BitArray": "To_Bits (Tok)", "String": "To_Str (Tok)", "Asn1Boolean": '(Tok = "1")',
           "Asn1ObjectIdentifier": "To_Oid (Tok)"})
OUT = {t: "Num (%s'Image (%%s));" % t for t in NUM}
OUT.update({"Asn1Real": "Put_Real (%s);", "Float": "Put_Float (%s);", "OctetBuffer": "Put_Octets (%s);", "String": "Put_Str (%s);",
            "Asn1Boolean": "Num (if %s then \"1\" else \"0\");", "Asn1ObjectIdentifier": "Put_Oid (%s);"})

HEAD = """with Ada.Text_IO; use Ada.Text_IO;
with Ada.Exceptions; use Ada.Exceptions;
with Ada.Unchecked_Conversion;
with Interfaces; use Interfaces;
with adaasn1rtl; use adaasn1rtl;
with adaasn1rtl.encoding; use adaasn1rtl.encoding;
with adaasn1rtl.encoding.uper; use adaasn1rtl.encoding.uper;
with adaasn1rtl.encoding.acn; use adaasn1rtl.encoding.acn;
procedure Driver is
   L : String (1 .. 400000);
   Last, P : Natural := 0;
   Harness_Error : exception;
   function U64_To_Real is new Ada.Unchecked_Conversion (Unsigned_64, Asn1Real);
   function Real_To_U64 is new Ada.Unchecked_Conversion (Asn1Real, Unsigned_64);
   function Float_To_U32 is new Ada.Unchecked_Conversion (Float, Unsigned_32);
   function Tok return String is
      F : Natural;
   begin
      while P <= Last and then L (P) = ' ' loop P := P + 1; end loop;
      F := P;
      while P <= Last and then L (P) /= ' ' loop P := P + 1; end loop;
      if F > Last then raise Harness_Error with "missing argument"; end if;
      return L (F .. P - 1);
   end Tok;
   function H (C : Character) return Unsigned_8 is
     (if C <= '9' then Character'Pos (C) - 48 else Character'Pos (C) - 87);
   function To_Octets (S : String) return OctetBuffer is
      R : OctetBuffer (1 .. S'Length / 2);
   begin
      for I in R'Range loop
         R (I) := H (S (S'First + 2 * (I - 1))) * 16 + H (S (S'First + 2 * (I - 1) + 1));
      end loop;
      return R;
   end To_Octets;
   function To_Str (S : String) return String is
      O : constant OctetBuffer := To_Octets (S);
      R : String (1 .. O'Length);
   begin
      for I in R'Range loop R (I) := Character'Val (O (I)); end loop;
      return R;
   end To_Str;
   function To_Bits (S : String) return BitArray is
      R : BitArray (1 .. S'Length);
   begin
      for I in R'Range loop R (I) := (if S (S'First + I - 1) = '1' then 1 else 0); end loop;
      return R;
   end To_Bits;
   function To_Real (S : String) return Asn1Real is
      U : Unsigned_64 := 0;
   begin
      for C of S loop U := U * 16 + Unsigned_64 (H (C)); end loop;
      return U64_To_Real (U);
   end To_Real;
   function To_Oid (S : String) return Asn1ObjectIdentifier is
      R : Asn1ObjectIdentifier := (Length => 0, values => (others => 0));
      A : Natural := S'First;
   begin
      for I in S'First .. S'Last + 1 loop
         if I > S'Last or else S (I) = ':' then
            R.Length := R.Length + 1;
            R.values (R.Length) := Asn1UInt'Value (S (A .. I - 1));
            A := I + 1;
         end if;
      end loop;
      return R;
   end To_Oid;
   procedure Num (S : String) is
   begin
      Put (" " & (if S (S'First) = ' ' then S (S'First + 1 .. S'Last) else S));
   end Num;
   procedure Hex (B : Unsigned_8) is
      D : constant String := "0123456789abcdef";
   begin
      Put (D (Natural (B / 16) + 1)); Put (D (Natural (B mod 16) + 1));
   end Hex;
   procedure Put_Octets (B : OctetBuffer) is
   begin
      Put (" #"); for X of B loop Hex (X); end loop;
   end Put_Octets;
   procedure Put_Str (B : String) is
   begin
      Put (" #"); for X of B loop Hex (Character'Pos (X)); end loop;
   end Put_Str;
   procedure Put_Real (R : Asn1Real) is
      U : constant Unsigned_64 := Real_To_U64 (R);
   begin
      Put (" "); for I in reverse 0 .. 7 loop Hex (Unsigned_8 (Shift_Right (U, 8 * I) and 255)); end loop;
   end Put_Real;
   procedure Put_Float (R : Float) is
      U : constant Unsigned_32 := Float_To_U32 (R);
   begin
      Put (" "); for I in reverse 0 .. 3 loop Hex (Unsigned_8 (Shift_Right (U, 8 * I) and 255)); end loop;
   end Put_Float;
   procedure Put_Oid (O : Asn1ObjectIdentifier) is
   begin
      Put (" " & Integer'Image (O.Length) (2 .. Integer'Image (O.Length)'Last));
      for I in 1 .. O.Length loop
         declare S : constant String := Asn1UInt'Image (O.values (I)); begin Put (":" & S (2 .. S'Last)); end;
      end loop;
   end Put_Oid;
   procedure One is
      Init : constant OctetBuffer := To_Octets (Tok);
      Start : constant Natural := Natural'Value (Tok);
      Op : constant String := Tok;
      bs : Bitstream := (Size_In_Bytes => Init'Length, Buffer => Init, Current_Bit_Pos => Start, pushDataPrm => 0, fetchDataPrm => 0);
      procedure Res (Ok : Boolean) is
         S : constant String := Natural'Image (bs.Current_Bit_Pos);
      begin
         Put ((if Ok then "r1" else "r0") & " p" & S (2 .. S'Last));
      end Res;
"""

TAIL = """
   begin
%s      if Found then
         Put (" |");
         for X of bs.Buffer loop Hex (X); end loop;
      else
         Put ("HARNESS unknown procedure");
      end if;
   exception
      when E : others =>
         declare
            M : constant String := Exception_Message (E);
         begin
            Put ("X " & Exception_Name (E) & " " & M);
         end;
   end One;
begin
   loop
      exit when End_Of_File;
      Get_Line (L, Last);
      P := 1;
      if Last >= 2 then One; end if;
      New_Line;
      Flush;
   end loop;
end Driver;
"""


def driver():
    names, body, disp = [], [], []
    for k, ps in sorted(procs().items()):
        ok, dec, call, out, res = True, [], [], [], "True"
        for i, (n, mode, ty) in enumerate(ps):
            v = "A%d" % i
            if ty == "Bitstream":
                call.append("bs")
                continue
            call.append(v)
            if ty in ("ASN1_RESULT", "Boolean") and mode == "out":
                dec.append("%s : %s;" % (v, ty))
                res = v + (".Success" if ty == "ASN1_RESULT" else "")
                continue
            if mode == "out":
                if ty not in OUT or ty in ("String", "OctetBuffer"):
                    ok = False
                    break
                dec.append("%s : %s;" % (v, "Standard.Float" if ty == "Float" else ty))
            else:
                if ty not in IN:
                    ok = False
                    break
                dec.append("%s : %s%s := %s;" % (v, "constant " if mode == "in" else "", ty, IN[ty]))
            if "out" in mode:
                out.append(OUT[ty] % v)
        if not ok:
            continue
        names.append(k)
        body.append("      procedure Do_%s is\n         %s\n      begin\n         %s (%s);\n         Res (%s);\n         %s\n      end Do_%s;\n" %
                    (k, "\n         ".join(dec), k, ", ".join(call), res, " ".join(out), k))
        disp.append('      %s Op = "%s" then Do_%s;' % ("if" if not disp else "elsif", k, k))
    text = HEAD + "      Found : Boolean := True;\n" + "".join(body) + TAIL % ("\n".join(disp) + "\n      else Found := False; end if;\n")
    return names, text


GPR = """project Drv is
   for Source_Dirs use (".", "src");
   for Object_Dir use "obj";
   for Exec_Dir use ".";
   for Main use ("driver.adb");
   package Compiler is
      for Default_Switches ("ada") use ("-gnat2012", "-gnata", "-gnato", "-gnatws", "-g", "-O1");
   end Compiler;
   package Binder is
      for Default_Switches ("ada") use ("-E");
   end Binder;
end Drv;
"""


def build(out):
    os.makedirs(os.path.join(out, "obj"))
    shutil.copytree(os.path.join(ADARTL, "src"), os.path.join(out, "src"))
    shutil.copy(os.path.join(ADARTL, "boards", "x86_board_config.ads"), os.path.join(out, "src", "board_config.ads"))
    for f in os.listdir(os.path.join(out, "src")):
        if "-test_cases_aux" in f or "-xer" in f:
            os.unlink(os.path.join(out, "src", f))
    names, text = driver()
    open(os.path.join(out, "driver.adb"), "w").write(text)
    open(os.path.join(out, "drv.gpr"), "w").write(GPR)
    rc, so, err = run(["gprbuild", "-q", "-m", "-P", "drv.gpr", "-j4"], cwd=out, timeout=600)
    if rc:
        raise CheckError("the Ada driver does not build: " + (so + err)[-1500:])
    return os.path.join(out, "driver"), names


if __name__ == "__main__":
    import sys
    print(build(sys.argv[1]))
