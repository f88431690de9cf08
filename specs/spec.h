// Reference models. Parsed and analysed, never compiled or executed.
#pragma once
void __spec_assume(bool);
