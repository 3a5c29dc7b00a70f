SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Edge
PROPERTY Frame
PROPERTY Faithful
