// Vocabulary of the reference definitions.  Never executed: the analyser gives these calls their meaning.
#pragma once
namespace verif {
/// restricts the inputs over which implementation and reference are compared
void assume(bool);
/// a value the property leaves open
template<typename T> T unspecified();
}
