SPECIFICATION Spec
CONSTANTS Graph <- TraceGraph
          Input <- TraceInput
CHECK_DEADLOCK FALSE
