@# JSONObject as a value
@include json
