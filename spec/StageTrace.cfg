SPECIFICATION StageSpec
