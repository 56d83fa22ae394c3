"""Drivers for generated Ada packages: decode a message, judge the value, encode it again."""
import os, re, shutil
from ..common import *
from .model import c_name

HEAD = '''with Ada.Text_IO; use Ada.Text_IO;
with Ada.Exceptions;
with Interfaces; use Interfaces;
with adaasn1rtl; use adaasn1rtl;
with adaasn1rtl.encoding; use adaasn1rtl.encoding;
%(withs)s
procedure drv is
   function Num (S : String) return String is (if S (S'First) = ' ' then S (S'First + 1 .. S'Last) else S);
   function Img (N : Integer) return String is (Num (Integer'Image (N)));
   function Flag (B : Boolean) return String is (if B then "1" else "0");
   Hexd : constant String := "0123456789abcdef";
   function Nib (C : Character) return Unsigned_8 is
     (if C in '0' .. '9' then Character'Pos (C) - 48 else Character'Pos (C) - 87);

   generic
      type T is private;
      Size : Integer;
      with function Init return T;
      with function Valid (V : T) return ASN1_RESULT;
      with procedure Enc (V : T; S : out Bitstream; R : out ASN1_RESULT);
      with procedure Dec (V : out T; S : in out Bitstream; R : out ASN1_RESULT);
   procedure Go (H : String);

   procedure Go (H : String) is
      V : T := Init;
      S : Bitstream (Size);
      E : Bitstream (Size);
      R : ASN1_RESULT;
      Stage : Character := 'd';
   begin
      S.Buffer := (others => 16#5a#);
      S.Current_Bit_Pos := 0;
      E.Buffer := (others => 0);
      E.Current_Bit_Pos := 0;
      if H /= "-" then
         for I in 1 .. Integer'Min (H'Length / 2, Size) loop
            S.Buffer (I) := Shift_Left (Nib (H (H'First + 2 * I - 2)), 4) or Nib (H (H'First + 2 * I - 1));
         end loop;
      end if;
      Dec (V, S, R);
      Put ("d" & Flag (R.Success) & "," & Img (R.ErrorCode) & "," & Img (S.Current_Bit_Pos));
      if R.Success then
         Stage := 'v';
         R := Valid (V);
         Put (" v" & Flag (R.Success) & "," & Img (R.ErrorCode));
         Stage := 'e';
         Enc (V, E, R);
         Put (" e" & Flag (R.Success) & "," & Img (R.ErrorCode) & "," & Img (E.Current_Bit_Pos) & " ");
         if E.Current_Bit_Pos = 0 then
            Put ("-");
         end if;
         for I in 1 .. (E.Current_Bit_Pos + 7) / 8 loop
            Put (Hexd (Integer (E.Buffer (I) / 16) + 1));
            Put (Hexd (Integer (E.Buffer (I) and 15) + 1));
         end loop;
      end if;
      New_Line;
   exception
      when X : others =>
         Put_Line (" X" & Stage & " " & Ada.Exceptions.Exception_Name (X) & " " & Ada.Exceptions.Exception_Message (X));
   end Go;

%(insts)s
begin
   while not End_Of_File loop
      declare
         L : constant String := Get_Line;
         P : Integer := L'First;
         K : Integer;
      begin
         while L (P) /= ' ' loop
            P := P + 1;
         end loop;
         K := Integer'Value (L (L'First .. P - 1));
         case K is
%(cases)s
            when others => raise Program_Error;
         end case;
      end;
   end loop;
end drv;
'''


def package(g, j):
    n = g.modname if g.split is None or j < g.split else g.modname + "2"
    return c_name(n).lower()


def source(g, entries, d):
    """entries: [(type index, 'u' or 'a')] -> Ada text; the driver command is '<entry index> <hex>'"""
    withs = sorted({package(g, j) for j in range(len(g.types))})
    ins, cas = [], []
    specs = {p: open(os.path.join(d, p + ".ads")).read() for p in withs}
    for k, (j, e) in enumerate(entries):
        t = c_name(g.types[j].name)
        p = package(g, j) + "."
        x = "" if e == "u" else "ACN_"
        valid = p + t + "_IsConstraintValid"
        if "function %s_IsConstraintValid(" % t not in specs[p[:-1]]:     # some types have nothing to check
            valid = "Valid_%d" % k
            ins.append("   function Valid_%d (X : %s) return adaasn1rtl.ASN1_RESULT is ((Success => True, ErrorCode => 0));" % (k, p + t))
        ins.append("   procedure Go_%d is new Go (%s, Integer'Max (1, %s_REQUIRED_BYTES_FOR_%sENCODING), %s_Init, %s, %s_%sEncode, %s_%sDecode);" %
                   (k, p + t, p + t, x, p + t, valid, p + t, x, p + t, x))
        cas.append("            when %d => Go_%d (L (P + 1 .. L'Last));" % (k, k))
    return HEAD % dict(withs="\n".join("with %s;" % w for w in withs), insts="\n".join(ins), cases="\n".join(cas))


GPR = '''project drv is
   for Source_Dirs use (".");
   for Object_Dir use "obj";
   for Main use ("drv.adb");
   package Compiler is
      for Default_Switches ("ada") use ("-gnat2012", "-gnato", "-gnatws", "-g", "-O0");
   end Compiler;
   package Binder is
      for Default_Switches ("ada") use ("-E");
   end Binder;
end drv;
'''


def build(d, g, entries, out="ada", cache=None, timeout=600):
    """-> (binary or None, messages)"""
    o = os.path.join(d, out)
    open(os.path.join(o, "drv.adb"), "w").write(source(g, entries, o))
    for f in os.listdir(o):
        if f.endswith(".gpr"):
            os.unlink(os.path.join(o, f))
    open(os.path.join(o, "drv.gpr"), "w").write(GPR)
    obj = os.path.join(o, "obj")
    os.makedirs(obj, exist_ok=True)
    if cache and os.path.isdir(cache):
        shutil.copytree(cache, obj, dirs_exist_ok=True)
    rc, out_, err = run(["gprbuild", "-q", "-m", "-P", "drv.gpr", "-j1"], cwd=o, timeout=timeout)
    if rc == 0 and cache and not os.path.isdir(cache):
        t = cache + ".%d" % os.getpid()
        os.makedirs(t)
        for f in os.listdir(obj):
            if f.startswith("adaasn1rtl"):
                shutil.copy(os.path.join(obj, f), t)
        try:
            os.rename(t, cache)
        except OSError:
            shutil.rmtree(t)
    return (os.path.join(obj, "drv") if rc == 0 else None), err + out_
