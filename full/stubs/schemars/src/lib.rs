//! Not used: the feature that needs it is off.
