SPECIFICATION Spec
INVARIANT Minimum
PROPERTY Stale
PROPERTY Refuse
PROPERTY Keep
VIEW View
ACTION_CONSTRAINT Edge
