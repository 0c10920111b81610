------------------------------- MODULE MCCsvFile -------------------------------
EXTENDS CsvFile
ShapesQ == {<<1, 2>>, <<1, 3>>, <<2, 2>>}
ShapesT == {<<1, 2>>, <<1, 3>>, <<2, 2>>, <<1, 4>>, <<3, 2>>}
(* the driver writes each of these in several ways; 1: text that is not a number *)
Worths == <<0, 1000, -2500, 0, 31415000>>
===============================================================================
