// Properties decided by bounded runs of the real code; the listed units are their proved parts.
package leaves

property C16 [bounded] { util.ConstructBitset; util.NumberOfSetBits; util.FirstNonZeroBit; lemma flag_bits_distinct }
property C22 [bounded] { lemma flag_bits_distinct }
